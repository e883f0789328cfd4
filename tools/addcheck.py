#!/usr/bin/env python3
"""addcheck.py ID image 'scenario name' k=v,... [copy=PXX] : adds or extends an entry of checks.json"""
import json,sys
import os; f=os.environ.get('VROOT','/verif')+'/checks.json'; C=json.load(open(f)); i,img,name,par=sys.argv[1:5]
kw=dict(a.split('=',1) for a in sys.argv[5:])
p={k:float(v) if '.' in v or 'e' in v else int(v) for k,v in (x.split('=') for x in par.split(',') if x)}
c=C.setdefault(i,dict(scenarios=[]))
for k in ('real','stub','assumptions','states'):
    if kw.get('copy'): c.setdefault(k,C[kw['copy']].get(k))
    if k in kw: c[k]=kw[k].split('|') if k=='assumptions' else kw[k]
if 'foreign' in kw: c['foreign']=kw['foreign'].split(',')
s=dict(name=name,image=img,params=p)
if 'weight' in kw: s['weight']=float(kw['weight'])
c['scenarios']=[x for x in c['scenarios'] if x['name']!=name]+[s]
json.dump(C,open(f,'w'),indent=1)
