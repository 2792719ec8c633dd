#!/usr/bin/env python3
"""addkf.py ID PROP STATUS COMMIT HARNESS OBLIGATION WHAT"""
import json,sys
p='/verif/known_findings.json'; d=json.load(open(p))
i,pr,st,co,h,o,w=sys.argv[1:8]
d['findings']=[f for f in d['findings'] if f['id']!=i]
e={'id':i,'property':pr,'status':st}
if st=='fixed': e['commit']=co; w='fixed: property=%s %s %s'%(pr,co,w)
e.update({'harness':h,'obligation':o,'what':w}); d['findings'].append(e)
json.dump(d,open(p,'w'),indent=1)
