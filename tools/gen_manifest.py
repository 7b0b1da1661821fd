#!/usr/bin/env python3
"""writes MANIFEST.json from vf/registry.json (claimed checks) and properties.jsonl"""
import json,os
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
reg=json.load(open(V+'/tools/registry.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in reg['checks']:
        c=dict(reg['checks'][i]); c['property']=i
        c.setdefault('quick_cmd','python3-vt -m vf.check %s --tier quick'%i)
        c.setdefault('thorough_cmd','python3-vt -m vf.check %s --tier thorough'%i)
        checks.append(c)
    else:
        na.append({'property':i,'reason':reg['na'].get(i,'check not built yet (work in progress)')})
m={'version':1,'setup_cmd':reg['setup_cmd'],'checks':checks,'not_applicable':na,'notes':reg.get('notes','')}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
