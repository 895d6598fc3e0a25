#!/bin/bash
# try.sh MODULE SECONDS [SEED]: run the bounded check on 8 workers
m=$1; s=${2:-10}; seed=${3:-1}; d=$(mktemp -d)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 VERIF_WORKERS=8 PYTHONWARNINGS=ignore
for w in 0 1 2 3 4 5 6 7; do
  VERIF_WORKER=$w timeout $((s+60)) /opt/venv/bin/python $(dirname $0)/run.py $m $seed 100000000 $s $d/$w.json $d/$w.p & 
done; wait
/opt/venv/bin/python - $d <<'P'
import json,sys,glob
t={}
seen=set()
for f in sorted(glob.glob(sys.argv[1]+"/*.json")):
    r=json.load(open(f))
    for k in ("evaluations","ok","trivial","skipped"): t[k]=t.get(k,0)+r[k]
    if r["violation"]:
        d=r["violation"]["detail"]; k=d.splitlines()[0][:60]
        if k in seen or len(seen) > 1: continue
        seen.add(k)
        print("VIOLATION", json.dumps(r["violation"]["case"])[:int(__import__("os").environ.get("W","900"))]); print(d[:700])
print(t)
P
rm -rf "$d"
