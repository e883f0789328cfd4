#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec.py and checks.json."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/tools')
from spec import P
C=json.load(open(V+'/checks.json'))
out=[];checks=[];na=[]
for p in P:
    assert len(p['title'])<=80,p['title']
    a=dict(files=p['files'],mechanism=[dict(name=n,where=w) for n,w in p['mech']])
    if p['observe']: a['observe_at']=p['observe']
    a['hook_needed']=p['hook']
    out.append(dict(id=p['id'],title=p['title'],statement=p['statement'],quantifier=dict(over=p['over'],text=p['qtext']),why_tests_cant=p['why'],anchors=a))
    if p['na']: na.append(dict(property=p['id'],reason=p['na'])); continue
    if p['id'] not in C: print('no check for',p['id']); continue
    c=C[p['id']]
    note=p['note'] or 'Seeded search, not exhaustive: it shows the property on every execution explored (counts, faults and distinct interleavings are in the evidence) and assumes sequentially consistent memory; '+('real code: '+c.get('real','')+'; ' if c.get('real') else '')+('stubbed: '+c['stub'] if c.get('stub') else 'libc, threads, clock, sockets and files are the simulator\'s.')
    checks.append(dict(property=p['id'],quick_cmd=f"python3 check.py {p['id']} quick",thorough_cmd=f"python3 check.py {p['id']} thorough",evidence_file=f"evidence/{p['id']}.json",technique='deterministic simulation with fault injection (seeded schedule and fault search over the real code, replayable traces)',level=c.get('level','exploration'),level_note=note))
open(V+'/properties.jsonl','w').write(''.join(json.dumps(o)+'\n' for o in out))
json.dump(dict(version=1,setup_cmd='python3 sim/build.py',hooks=dict(guard='MEQ_VERIF_SIM (unused: no hook was needed)',enable='nothing to enable: the simulator sits behind libc/pthread symbols and compiler instrumentation, /repo sources are compiled as they are',source_commits=[]),checks=checks,not_applicable=na,notes='See DESIGN.md. Replay a failure with: python3 check.py --replay FILE'),open(V+'/MANIFEST.json','w'),indent=1)
print(len(out),'properties',len(checks),'checks',len(na),'not applicable')
