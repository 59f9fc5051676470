#!/bin/bash
# development helper: translate one unit and verify it
cd /verif/verus && /verif/.build/vx/debug/vx ${SRC:-/repo/src} . $1 /tmp/vt/$1.rs "$2" > /tmp/vt/$1.json || { cat /tmp/vt/$1.json; exit 1; }
python3 - $1 <<'P'
import json,sys
r=json.load(open(f'/tmp/vt/{sys.argv[1]}.json'))
for k,v in r['functions'].items():
    if v['status'] in('unsupported','missing','uncontracted') or 'uncontracted' in v or 'loops_changed' in v: print(k,v['status'],v.get('reason',''),v.get('uncontracted',''))
if r['opaque_types']: print('opaque',r['opaque_types'])
P
cd /tmp/vt && verus $1.rs --multiple-errors 4 --num-threads 8 ${@:3} 2>&1 | grep -v "^ *[0-9]*: \|stack backtrace" | grep -E "^(error|verification)|failed" -A${A:-6} | grep -v "^note" | head -${N:-60}
