#!/usr/bin/env python3
"""Check driver: check.py PROPERTY [quick|thorough]   or   check.py --replay FILE

Builds the images a property needs from /repo's working tree, searches seeded
simulated executions, and gates every violation: the same seed must fail the
same way (same event hash) in a fresh process, and the minimised trace must
replay to the same failure twice.  Exit 0: held on everything explored.
Exit 1: "VIOLATION property=<id> replay=<path>".  Anything else: no answer."""
import sys,os,json,time,subprocess,shutil,struct,re,signal
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,V+'/sim')
import build
OUT=build.OUT; RUN=OUT+'/simrun'
NCPU=os.cpu_count() or 4
def cfg(): return json.load(open(V+'/checks.json'))
def known():
    k=[]
    try: lines=open(V+'/known_findings.txt').read().splitlines()
    except OSError: return k
    for l in lines:
        m=re.match(r'finding: property=(\S+) class=(\S+) match=/(.*?)/ (.*)$',l)
        if m: k.append(dict(property=m[1],cls=m[2],rx=re.compile(m[3],re.S),text=m[4]))
    return k
def so(image):
    a=[]
    for s in build.images(image): a+=['--so',s]
    return a
def pargs(params):
    a=[]
    for k,v in params.items(): a+=['--param',f'{k}={v}']
    return a
def one(image,params,mode,seed,trace=None,out=None,mintime=30,timeout=60):
    c=[RUN]+so(image)+['--mode',mode,'--start',str(seed),'--timeout',str(timeout)]+pargs(params)
    if trace: c+=['--replay',trace]
    if out: c+=['--out',out]
    if mode=='minimise': c+=['--mintime',str(mintime)]
    return subprocess.run(c,capture_output=True,text=True)
def jline(t,tag=None):
    for l in t.splitlines():
        if tag is None:
            if l.startswith('{'): return json.loads(l)
        elif l.startswith(tag+' '): return json.loads(l[2:])
    return None
def rerun(image,params,seed,tmp):
    r=one(image,params,'run',seed,out=tmp); return jline(r.stdout,'V')
def do_replay(f):
    d=json.load(open(f)); build.build([d['image']],NCPU,quiet=True)
    t=OUT+f'/replay.{os.getpid()}.trace'; open(t,'w').write('\n'.join(f'{a} {b}' for a,b in d['trace'])+'\n')
    hs=[]
    for _ in range(2):
        r=jline(one(d['image'],d['params'],'replay',d['seed'],trace=t).stdout); hs.append((r['verdict'],r['cls'],r['hash']))
    os.unlink(t)
    if '-v' in sys.argv or '--log' in sys.argv: print(r['log'])
    print(f"replay: verdict {hs[0][0]} class {hs[0][1]} hash {hs[0][2]} (recorded {d['cls']} {d['hash']}), second replay {'identical' if hs[0]==hs[1] else 'DIFFERENT'}")
    if r['verdict']==2: print(r['msg'].split('\n')[0])
    if hs[0]!=hs[1]: return 3
    if r['verdict']==2 and r['cls']==d['cls']:
        print(f"VIOLATION property={d['property']} replay={f}"); return 1
    return 0
def main():
    if len(sys.argv)>2 and sys.argv[1]=='--replay': return do_replay(sys.argv[2])
    prop=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')
    C=cfg()[prop]; vseed=int(os.environ.get('VERIF_SEED','1') or 1); t_start=time.time()
    images=sorted({s['image'] for s in C['scenarios']}); build.build(images,NCPU); t_build=time.time()-t_start
    budget=float(os.environ.get('VERIF_BUDGET',0)) or C.get(tier,35 if tier=='quick' else 1500)
    tmpd=OUT+f'/run.{prop}.{os.getpid()}'; os.makedirs(tmpd,exist_ok=True); rdir=V+'/replays'; os.makedirs(rdir,exist_ok=True)
    KN=[k for k in known() if k['property']==prop]; tot=dict(runs=0,viol=0,discard=0,limit=0,switches=0,events=0,preempt=0,decisions=0,faulted=0); simtime=0.0; pas=0
    faults={};probes={};states=set();hashes=set();pairs=0;perscn=[];maxheap=0; det=[0,0]; samples=[]; kseen={}; foreign={}; fails=[]; unstable=[]; code=0
    W=sum(s.get('weight',1) for s in C['scenarios']); t0=time.time(); scns=[]
    for i,s in enumerate(C['scenarios']):
        p=dict(s.get('params',{})); p['tier']=1 if tier=='thorough' else 0
        w=s.get('weight',1)/W; nf=s.get('nofault_share',0.2)
        scns.append((i,s,dict(p),budget*w*(1-nf)))
        if nf>0: scns.append((i,s,dict(p,nofault=1),budget*w*nf))
    # determinism: the same seeds in two different processes, with different strides, give the same event hashes
    for i,s,p,b in scns[:1]+scns[2:3]:
        base=vseed*100000000+i*10000000; n=24; h={}
        for rep in range(2):
            pr=[]
            for k in range(1+rep): pr.append(subprocess.Popen([RUN]+so(s['image'])+['--hashes','--start',str(base+k),'--stride',str(1+rep),'--count',str(n//(1+rep)),'--maxviol','1000000']+pargs(p),stdout=subprocess.PIPE,text=True))
            for q in pr:
                o,_=q.communicate()
                for l in o.splitlines():
                    if l.startswith('H '): f=l.split(); h.setdefault(f[1],set()).add(f[2]); 
        det[0]+=len(h); det[1]+=sum(1 for x in h.values() if len(x)>1)
    stop=False
    for idx,(i,s,p,b) in enumerate(scns):
        base=vseed*100000000+i*10000000+(5000000 if p.get('nofault') else 0); rep=0; tb=time.time(); nscn=0
        pr=[]
        for k in range(NCPU): pr.append(subprocess.Popen([RUN]+so(s['image'])+['--start',str(base+k),'--stride',str(NCPU),'--count','4000000','--time',f'{b:.2f}','--maxviol','40','--out',f'{tmpd}/s{idx}','--hashfile',f'{tmpd}/h{idx}.{k}']+pargs(p),stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True))
        import selectors
        sel=selectors.DefaultSelector(); outs=[[] for _ in pr]; bufs=['']*len(pr)
        for k,q in enumerate(pr): os.set_blocking(q.stdout.fileno(),False); sel.register(q.stdout,selectors.EVENT_READ,k)
        live=len(pr); found=[]
        def handle(line):
            if line.startswith('V '):
                v=json.loads(line[2:]); v['image']=s['image']; v['params']=p
                kf=[x for x in KN if x['cls']==v['cls'] and x['rx'].search(v['msg'])]
                if kf: kseen[kf[0]['text']]=kseen.get(kf[0]['text'],0)+1; return
                if v['cls'] in C.get('foreign',[]): foreign[v['cls']]=foreign.get(v['cls'],0)+1; return
                found.append(v)
        while live:
            for key,_ in sel.select(1.0):
                k=key.data
                try: d=os.read(key.fd,1<<20)
                except BlockingIOError: continue
                if not d: sel.unregister(key.fileobj); live-=1; continue
                bufs[k]+=d.decode('utf8','replace')
                while '\n' in bufs[k]:
                    l,bufs[k]=bufs[k].split('\n',1); outs[k].append(l); handle(l)
            if len(found)>=6 and time.time()-tb>2: # enough evidence
                for q in pr: q.kill()
        for q in pr:
            q.wait()
            e=q.stderr.read()
            if q.returncode not in (0,-9): print(f'runner failed ({q.returncode}): {e[-500:]}'); code=4
        for o in outs:
            for l in o:
                if l.startswith('S '):
                    S=json.loads(l[2:])
                    for k in tot: tot[k]+=S.get(k,0)
                    pas+=S['pass']; simtime+=S['simtime_s']; pairs=max(pairs,S['pairs']); maxheap=max(maxheap,S['maxheap']); nscn+=S['runs']
                    for k,v in S['faults'].items(): faults[k]=faults.get(k,0)+v
                    for k,v in S['probes'].items(): probes[k]=probes.get(k,0)+v
                    states.update((i,x) for x in S['states_list'])
        for k in range(NCPU):
            try: d=open(f'{tmpd}/h{idx}.{k}','rb').read(); hashes.update(struct.unpack(f'<{len(d)//8}Q',d))
            except OSError: pass
        perscn.append(dict(scenario=s.get('name',str(s.get('params'))),image=s['image'],params=p,runs=nscn,seconds=round(time.time()-tb,1),first_seed=base))
        if not found and len(samples)<4:
            r=one(s['image'],p,'run',base); S=jline(r.stdout,'S')
            if S: samples.append(dict(scenario=s.get('name'),params=p,seed=base,decisions=S['decisions'],switches=S['switches'],events=S['events'],simtime_s=S['simtime_s'],faults=S['faults'],probes=S['probes'],passed=S['pass']))
        found.sort(key=lambda v:v['ntrace'])
        seen=set()
        for v in found:
            if v['cls'] in seen: continue
            a=rerun(v['image'],p,v['seed'],tmpd+'/a'); b2=rerun(v['image'],p,v['seed'],tmpd+'/b')
            if not a or not b2 or a['cls']!=v['cls'] or a['hash']!=v['hash'] or b2['hash']!=v['hash']: unstable.append((v['seed'],v['cls'],v['hash'],a and a['hash'])); continue
            tr=a['trace']; mini=f"{tmpd}/m{v['seed']}"
            m=jline(one(v['image'],p,'minimise',v['seed'],trace=tr,out=mini,mintime=20 if tier=='quick' else 90).stdout) if v['cls']!='hang' else None
            use=mini if m and m.get('ok') else tr
            r1=jline(one(v['image'],p,'replay',v['seed'],trace=use).stdout); r2=jline(one(v['image'],p,'replay',v['seed'],trace=use).stdout)
            if not r1 or r1['verdict']!=2 or r1['cls']!=v['cls'] or r1['hash']!=r2['hash']: unstable.append((v['seed'],v['cls'],'replay')); continue
            trace=[tuple(map(int,l.split())) for l in open(use) if l.strip()]
            f=f"{rdir}/{prop}-{v['cls']}-{v['seed']}.json"
            json.dump(dict(property=prop,image=v['image'],params=p,seed=v['seed'],cls=v['cls'],hash=r1['hash'],msg=r1['msg'],original_decisions=v['ntrace'],minimised_decisions=len(trace),trace=trace,log=r1['log'][-20000:]),open(f,'w'))
            # the known-findings file matches on the minimised failure as well
            if any(x['cls']==v['cls'] and x['rx'].search(r1['msg']) for x in KN): continue
            seen.add(v['cls']); fails.append((v,f,r1))
        if fails: break
    shutil.rmtree(tmpd,ignore_errors=True)
    search=time.time()-t0
    for k in KN:
        print(f"KNOWN-FINDING: property={prop} {k['text']}"+(f" (seen in {kseen[k['text']]} of {tot['runs']} runs)" if k['text'] in kseen else ''))
    ev=dict(property=prop,tier=tier,seed=vseed,level=C.get('level','exploration'),violations=len(fails),wall_s=round(time.time()-t_start,1),
      coverage=dict(evaluations=tot['runs'],distinct_nontrivial=len(hashes),
        rule='one evaluation = one simulated execution from one seed; distinct = different hash over the whole sequence of scheduling decisions, injected faults, I/O and observed events; non-trivial = the harness completed its history and its oracle was evaluated (discarded runs are not counted). '+C.get('rule',''),
        samples=samples,passed=pas,discarded=tot['discard'],step_limited=tot['limit'],seeds_per_hour=int(tot['runs']/max(search,0.1)*3600),simulated_seconds=round(simtime,1),
        thread_switches=tot['switches'],instrumented_memory_events=tot['events'],forced_preemptions=tot['preempt'],scheduling_and_fault_decisions=tot['decisions'],
        faults_injected=faults,runs_with_faults=tot['faulted'],probes_reached=probes,abstract_states=len(states),switch_point_pairs=pairs,states_measure=C.get('states',''),
        determinism=dict(seeds_compared_across_processes=det[0],mismatches=det[1]),scenarios=perscn,real_components=C.get('real',''),stubbed_components=C.get('stub',''),build_s=round(t_build,1),other_property_violations_seen=foreign,unstable=unstable,known_findings_seen=kseen),
      assumptions=C.get('assumptions',[]))
    os.makedirs(V+'/evidence',exist_ok=True); json.dump(ev,open(f'{V}/evidence/{prop}.json','w'),indent=1)
    print(f"{prop} {tier}: {tot['runs']} runs ({len(hashes)} distinct), {simtime:.0f} s simulated, {sum(faults.values())} faults, {len(fails)} violations, {time.time()-t_start:.0f} s wall")
    for v,f,r in fails:
        print(f"  class {v['cls']} seed {v['seed']}: {r['msg'].splitlines()[0][:600]}")
        print(f"VIOLATION property={prop} replay={f}")
    if fails: return 1
    if unstable: print('unstable violations (not reported as violations):',unstable[:5]); return 5
    if det[1]: print('note: %d of %d seeds compared gave different event hashes in different processes; such runs cannot become a verdict (a violation must replay exactly)'%(det[1],det[0]))
    if tot['runs']<C.get('min_runs',50): print('too few runs'); return 7
    if pas==0: print('no run passed'); return 7
    return code
if __name__=='__main__':
    sys.exit(main())
