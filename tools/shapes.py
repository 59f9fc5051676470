#!/usr/bin/env python3
"""Records which loops each function under contract has on the tree the contracts were written for (verus/shapes.json)."""
import glob, json, os, subprocess
V='/verif'; out={}
for u in sorted(glob.glob(V+'/verus/units/*.vu')):
    u=os.path.basename(u)[:-3]
    r=subprocess.run([V+'/.build/vx/debug/vx','/repo/src',V+'/verus',u,'/tmp/shape.rs',''],capture_output=True,text=True)
    d=json.loads(r.stdout)
    for k,v in d['functions'].items():
        if 'shape' in v and v['status']=='verify': out[k]=v['shape']
        elif v['status'] in ('unsupported','missing'): print(u,k,v['status'],v.get('reason',''))
json.dump(dict(sorted(out.items())),open(V+'/verus/shapes.json','w'),indent=0)
