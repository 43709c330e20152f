#!/bin/bash
# sweep.sh WORKLOAD SECS [extra args]: 8 workers, first violation of every class
W=$1; S=$2; shift 2
for i in 1 2 3 4 5 6 7 8; do ${SIM:-/verif/build/sim/sim} --workload $W --secs $S --stop ${STOP:-1} --start $((i+${BASE:-0})) --stride 8 "$@" > /tmp/sweep.$W.$i 2>&1 & done; wait
python3 - $W ${CUT:-500} <<'P'
import sys,json,re
seen={};runs=0
for i in range(1,9):
    for l in open("/tmp/sweep.%s.%d"%(sys.argv[1],i),errors="replace"):
        try: d=json.loads(l)
        except Exception: print("??",l[:200]); continue
        if d["event"]=="summary": runs+=d["runs"]; continue
        k=(d.get("klass"),re.sub(r"[0-9a-f/]{2,}|\d+","#",d.get("msg",""))[:45])
        seen.setdefault(k,[]).append(d)
for k,v in sorted(seen.items(),key=lambda x:-len(x[1])):
    d=v[0]; print(len(v),"x seed",d.get("seed"),d["event"],d.get("klass"),"|",d.get("msg","")[:int(sys.argv[2])],"| err:",d.get("err","")[:300])
print("runs",runs)
P
rm -f /tmp/sweep.$W.*
