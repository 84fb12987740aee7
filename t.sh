#!/bin/sh
# t.sh ID [plans] [seconds]
export SIM_REPO=${SIM_REPO:-/repo}; p=$1; cd /verif; python3 build.py $p >/tmp/b.txt 2>&1 || { tail -40 /tmp/b.txt; exit 2; }
build/bin/simdynd-$p run --prop $p --plans ${2:-20000} --seconds ${3:-30} --out /tmp/o-$p.json --replay /tmp/r-$p.txt | grep -v '^switch' | cut -c1-${COLS:-500} | awk '{if($0!=p)print;p=$0}' | head -60
python3 - $p <<'P'
import json,sys
j=json.load(open('/tmp/o-%s.json'%sys.argv[1]))
print({k:v for k,v in j.items() if k not in('samples',)})
P
