#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree into /verif/build/<variant>."""
import glob, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
WRAPS = ["malloc", "calloc", "realloc", "free", "pthread_mutex_lock", "pthread_mutex_trylock",
         "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast",
         "pthread_cond_timedwait", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock", "pthread_rwlock_unlock",
         "pthread_spin_lock", "pthread_spin_unlock", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "sched_yield"]
NO_ASAN = {"rt_mem.cpp", "rt_disk.cpp", "rt_sched.cpp"}

# the others need CGAL
OPERATORS = ["CutPointcloud", "DistanceGridToPointcloud", "Fold", "GridFloatToMLS", "GridIllumination", "MLSProjection", "MLSSlope", "MLSToGrid",
             "MLSToPointCloud", "MergeMLS", "MergePointcloud", "ObjectGrowing", "ScanMeshing", "SimpleTraversability", "TraversabilityGrassfire", "TraversabilityGrowClasses"]

def repo_sources():
    src = sorted(glob.glob(REPO + "/src/core/*.cpp")) + sorted(glob.glob(REPO + "/src/maps/*.cpp"))
    src = [s for s in src if os.path.basename(s) != "PolygonMap.cpp"]
    src += sorted(glob.glob(REPO + "/src/tools/*.cpp"))
    src += [REPO + "/src/operators/" + o + ".cpp" for o in OPERATORS]
    return src

def build(verbose=False):
    out = os.environ.get("SIM_BUILD", VERIF + "/build/sim")
    os.makedirs(out + "/inc", exist_ok=True)
    os.makedirs(out + "/obj", exist_ok=True)
    link = out + "/inc/envire"
    if not os.path.islink(link) or os.readlink(link) != REPO + "/src":
        if os.path.islink(link): os.unlink(link)
        os.symlink(REPO + "/src", link)
    common = "-std=c++14 -w -g1 -DBOOST_BIND_GLOBAL_PLACEHOLDERS -DEIGEN_MAX_ALIGN_BYTES=0 -DEIGEN_DONT_VECTORIZE " \
             "-fno-omit-frame-pointer -I%s/inc -I%s/src -I%s/shim -I/usr/include/eigen3" % (out, REPO, VERIF)
    L = ["builddir = " + out,
         "rule repo\n  command = g++ -MMD -MF $out.d %s -O1 -fsanitize=address -fsanitize-coverage=trace-pc -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % common,
         "rule sim\n  command = g++ -MMD -MF $out.d %s -O1 -fsanitize=address -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % common,
         "rule raw\n  command = g++ -MMD -MF $out.d %s -O2 -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % common,
         "rule link\n  command = g++ -fsanitize=address -o $out $in %s -lyaml -lboost_filesystem -lboost_thread -lboost_system -ldl -lpthread"
         % ("-Wl," + ",".join("--wrap=" + w for w in WRAPS))]
    objs = []
    def obj(rule, path, name):
        o = "%s/obj/%s.o" % (out, name)
        L.append("build %s: %s %s" % (o, rule, path)); objs.append(o)
    for s in sorted(glob.glob(VERIF + "/sim/*.cpp")):
        b = os.path.basename(s)
        obj("raw" if b in NO_ASAN else "sim", s, "sim_" + b[:-4])
    for s in repo_sources():
        obj("repo", s, "repo_" + s[len(REPO) + 5:-4].replace("/", "_"))
    exe = out + "/sim"
    L.append("build %s: link %s" % (exe, " ".join(objs)))
    L.append("default " + exe)
    text = "\n".join(L) + "\n"
    nf = out + "/build.ninja"
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    r = subprocess.run(["ninja", "-f", nf] + ([] if verbose else ["--quiet"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, r.stdout
    return exe, r.stdout

if __name__ == "__main__":
    exe, log = build(True)
    if exe is None:
        sys.stdout.write(log[-12000:]); sys.exit(2)
    print(exe)
