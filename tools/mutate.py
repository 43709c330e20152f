#!/usr/bin/env python3
"""mutate.py FILE[:FROM-TO] N SEED WORKLOADS SECS: random small mutants of a source file of the library (in a copy under
/tmp), and which workload notices them first. Used to find blind spots of the checks; nothing registered uses it."""
import json, os, random, re, subprocess, sys
FILE, N, SEED, WL, SECS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(","), sys.argv[5]
lo, hi = 0, 10**9
if ":" in FILE: FILE, r = FILE.split(":"); lo, hi = map(int, r.split("-"))
TAG = os.environ.get("TAG", "a"); M = "/tmp/mt/repo." + TAG; B = "/tmp/mt/build." + TAG; W = int(os.environ.get("WORKERS", "8"))
if not os.path.isdir(M): subprocess.run(["cp", "-a", "/repo", M], check=True)
subprocess.run("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (M, M), shell=True, check=True)
path = M + "/" + FILE; orig = open(path).read(); lines = orig.split("\n")
cands = []; cm = False
for i, l in enumerate(lines):
    if not lo <= i + 1 <= hi: continue
    s = l.strip()
    if s.startswith("/*"): cm = True
    if cm:
        if "*/" in s: cm = False
        continue
    if not s or s.startswith(("//", "#", "*", "using", "typedef", "namespace", "public", "private", "class", "case", "template", "friend", "assert")): continue
    def add(new, what):
        if new != l: cands.append((i, new, what))
    if s.endswith(";") and not re.match(r"(return|break|continue|throw|[\w:<>, \*&]+ [\*&]?\w+( ?=.*)?;|const |static )", s) and s.count("(") == s.count(")"): add(re.sub(r"\S.*", ";", l, count=1), "delete")
    m = re.search(r"\b(if|while)\s*\((.*)\)", l)
    if m and l.count("(") == l.count(")"): add(l[:m.start(2)] + "!(" + m.group(2) + ")" + l[m.end(2):], "negate")
    for a, b in (("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("true", "false"), ("false", "true"), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" + 1", ""), (" - 1", ""), ("second", "first"), ("begin()", "end()"), ("continue;", "break;"), ("+=", "-="), ("id_a", "id_b"), ("ADD", "REMOVE"), ("parent", "child"), ("first", "second"), (" - ", " + "), ("cellSizeX", "cellSizeY"), ("offsety", "offsetx"), ("scaley", "scalex")):
        k = l.find(a)
        if k >= 0: add(l[:k] + b + l[k+len(a):], a + "->" + b)
random.seed(SEED); random.shuffle(cands)
done = 0
env = dict(os.environ, SIM_REPO=M, SIM_BUILD=B)
for i, new, what in cands:
    if done >= N: break
    L = list(lines); L[i] = new
    open(path, "w").write("\n".join(L))
    r = subprocess.run(["python3", "/verif/tools/build.py"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: continue
    done += 1; killed = None
    for w in WL:
        ps = [subprocess.Popen(["timeout", str(int(SECS) * 3 + 60), B + "/sim", "--workload", w, "--secs", SECS, "--stop", "1", "--start", str(k + 1), "--stride", str(W)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace") for k in range(W)]
        for p in ps:
            out = p.communicate()[0]
            for x in out.split("\n"):
                try: d = json.loads(x)
                except Exception: continue
                if d.get("event") == "violation" and not killed: killed = (w, d.get("seed"), d.get("klass"), d.get("msg", "")[:70])
        if killed: break
    print(("KILLED " if killed else "SURVIVED"), FILE.split("/")[-1], i + 1, what, "|", lines[i].strip()[:100], "|", killed, flush=True)
open(path, "w").write(orig)
