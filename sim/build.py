#!/usr/bin/env python3
"""Builds the simulator and the instrumented process images from /repo's working tree.

Content-hash based: an object is rebuilt when its flags or the contents of any
file it was compiled from changed; mtimes are ignored."""
import os,re,sys,json,hashlib,subprocess,fcntl,shutil
from concurrent.futures import ThreadPoolExecutor
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('SIM_REPO','/repo')
OUT=os.environ.get('SIM_BUILD',VERIF+'/.build')
SIM=VERIF+'/sim'
PK={ # package -> (dir, cmake variable prefix)
 'TimBase':'TimBase','DMI':'DMI','OCTOPUSSY':'OCTOPUSSY','VisCube':'VisCube','AppAgent':'AppAgent/AppAgent','AppUtils':'AppAgent/AppUtils',
 'MEQ':'MEQ','MeqNodes':'MeqNodes','MeqServer':'MeqServer','OCTOPython':'OCTOPython','MeqMPI':'MeqMPI'}
SKIP={'octolistener.cc'}   # stand-alone programs
NODES_SUBSET=['Add','Constant','Multiply','Subtract','Divide','Parm','ReqSeq','ReqMux','Solver','Condeq','TimeNode','Freq','Sin','Cos','Sqr','Composer','Selector','Sum','Negate','Identity','PrivateFunction','Functional','DataCollect','Mean','Stripper','ParmTableUtils','Grid','ModRes','Resampler','Exp','HistoryCollect','WSum','ReductionFunction','Conj','ToComplex','Real','Imag','Norm','Log','Sqrt','Max','Min','MergeFlags','ZeroFlagger','Pow2','Paster','Fabs','GaussNoise','NoiseNode','BlitzRandom','RandomNoise','MatrixMultiply','Transpose','NElements','Invert','Tan','Pow','Pow3','StdDev','Rms','Product','WMean','DataConcat','Polar']
COMMON=['-std=c++17','-w','-fPIC','-DNDEBUG','-DHAVE_AIPSPP','-DHAVE_QDBM','-DMAKE_LOFAR_SYMBOLS_GLOBAL','-DSTRIP_CUDA','-DUSE_STD_COMPLEX','-DUSE_THREADS','-D_GNU_SOURCE','-DIMPLICIT_CTDS_32BIT','-U_FORTIFY_SOURCE','-fno-stack-protector','-fno-gnu-unique','-fno-strict-aliasing']
INSTR=['-O1','-fsanitize=thread','--param=tsan-instrument-func-entry-exit=0']
def sh(b): return hashlib.sha1(b).hexdigest()
_h={}
def fhash(p):
    if p not in _h:
        try: _h[p]=sh(open(p,'rb').read())
        except OSError: _h[p]='absent'
    return _h[p]
def cmake_sources(pkg):
    d=f'{REPO}/{PK[pkg]}'; txt=open(d+'/CMakeLists.txt').read(); txt=re.sub(r'#.*','',txt)
    src=[]
    for m in re.finditer(r'\b(?:set|SET)\s*\(\s*\w*src\w*\b([^)]*)\)',txt):
        src+=re.findall(r'[\w./+-]+\.cc',m.group(1))
    if not src:
        for m in re.finditer(r'(?i)add_library\s*\(([^)]*)\)',txt): src+=re.findall(r'[\w./+-]+\.cc',m.group(1))
    out=[]
    for s in src:
        b=os.path.basename(s)
        if b in SKIP or b.startswith('t') and '/test/' in s: continue
        p=os.path.normpath(d+'/'+s)
        if os.path.exists(p) and p not in out: out.append(p)
    return out
def make_includes():
    inc=OUT+'/include'
    want={}
    for pkg,d in PK.items():
        base=f'{REPO}/{d}/src'
        for root,_,files in os.walk(base):
            rel=os.path.relpath(root,base)
            for f in files:
                if f.endswith('.h') or f.endswith('.hcc') or (rel=='backward' and f.endswith('.cc')):
                    want[os.path.normpath(f'{pkg}/{rel}/{f}')]=f'{root}/{f}'
    for k,v in want.items():
        p=inc+'/'+k; t=f'#include "{v}"\n'
        try:
            if open(p).read()==t: continue
        except OSError: pass
        os.makedirs(os.path.dirname(p),exist_ok=True); open(p,'w').write(t)
    # forwarders for headers which no longer exist
    for root,_,files in os.walk(inc):
        for f in files:
            r=os.path.relpath(root+'/'+f,inc)
            if r not in want: os.unlink(root+'/'+f)
    cfg={}
    for pkg in PK:
        p=f'{OUT}/cfg/{pkg}/lofar_config.h'; have=''.join(f'#ifndef HAVE_LOFAR_{x.upper()}\n#define HAVE_LOFAR_{x.upper()} 1\n#endif\n' for x in PK)
        t=f'#ifndef LOFAR_CONFIG_H\n#define LOFAR_CONFIG_H\n#include <config.h>\n{have}#endif\n'
        os.makedirs(os.path.dirname(p),exist_ok=True)
        if not os.path.exists(p) or open(p).read()!=t: open(p,'w').write(t)
import sysconfig
def pyinc():
    a=['-I/usr/include/python3.12']
    import glob
    for g in ['/usr/lib/python3/dist-packages/numpy/core/include']:
        if os.path.isdir(g): a.append('-I'+g)
    return a
def incflags(pkg): return ['-include',SIM+'/config/compat.h','-I'+OUT+'/include','-I'+SIM+'/config',f'-I{OUT}/cfg/{pkg}','-I/usr/include/casacore']+pyinc()
class Job:
    def __init__(s,src,obj,flags,cxx='g++'): s.src=src; s.obj=obj; s.flags=flags; s.cxx=cxx
    def fresh(s):
        try: m=json.load(open(s.obj+'.json'))
        except Exception: return False
        if m['flags']!=sh(' '.join(s.flags).encode()) or not os.path.exists(s.obj) or os.path.realpath(s.src) not in m['deps']: return False
        return all(fhash(p)==h for p,h in m['deps'].items())
    def run(s):
        os.makedirs(os.path.dirname(s.obj),exist_ok=True)
        dep=s.obj+'.d'
        r=subprocess.run([s.cxx]+s.flags+['-MD','-MF',dep,'-c',s.src,'-o',s.obj+'.tmp.o'],capture_output=True,text=True)
        if r.returncode: return f'{s.src}:\n'+r.stderr[-4000:]
        txt=open(dep).read().replace('\\\n',' '); deps=txt.split(':',1)[1].split(); d={}
        for p in deps:
            p=os.path.realpath(p)
            if p.startswith('/usr/'): continue
            d[p]=fhash(p)
        os.rename(s.obj+'.tmp.o',s.obj); os.unlink(dep)
        json.dump({'flags':sh(' '.join(s.flags).encode()),'deps':d},open(s.obj+'.json','w'))
        return None
def pkg_jobs(pkg,only=None):
    j=[]
    if pkg=='DMI':
        g=OUT+'/gen/AID-Global-Registry.cc'; os.makedirs(OUT+'/gen',exist_ok=True)
        r=subprocess.run(['perl','src/makeglobreg.pl','aid/Global.aidlist',g+'.tmp'],cwd=REPO+'/DMI',capture_output=True,text=True)
        if r.returncode: raise SystemExit('makeglobreg failed '+r.stderr)
        new=open(g+'.tmp').read(); os.unlink(g+'.tmp')
        if not os.path.exists(g) or open(g).read()!=new: open(g,'w').write(new)
        j.append(Job(g,f'{OUT}/obj/DMI/AID-Global-Registry.o',INSTR+COMMON+incflags('DMI')))
    for s in cmake_sources(pkg):
        b=os.path.basename(s)
        if only is not None and b[:-3] not in only: continue
        j.append(Job(s,f'{OUT}/obj/{pkg}/{b}.o',INSTR+COMMON+incflags(pkg)))
    return j
IMAGES=json.load(open(SIM+'/images.json'))
def image_jobs(name):
    im=IMAGES[name]; jobs=[]
    for e in im['packages']:
        if isinstance(e,str): jobs+=pkg_jobs(e)
        else:
            only=NODES_SUBSET if e.get('only')=='subset' else e.get('only')
            js=pkg_jobs(e['pkg'],only); js=[x for x in js if os.path.basename(x.src) not in e.get('exclude',[])]
            jobs+=js
    for h in im['harness']:
        fl=['-O1','-g1']+COMMON+incflags('MeqServer')+['-I'+SIM+'/rt','-I'+SIM+'/h']
        jobs.append(Job(f'{SIM}/h/{h}',f'{OUT}/obj/h_{name}/{h}.o',fl))
    for h in im.get('instr_harness',[]):
        jobs.append(Job(f'{SIM}/h/{h}',f'{OUT}/obj/h_{name}/{h}.o',INSTR+COMMON+incflags('MeqServer')+['-I'+SIM+'/rt','-I'+SIM+'/h']))
    return jobs
def rt_jobs():
    j=[]
    for s in ['core.cc','io.cc','main.cc','heap.cc','tsan.cc']:
        j.append(Job(f'{SIM}/rt/{s}',f'{OUT}/obj/rt/{s}.o',['-O2','-g1','-std=c++17','-D_GNU_SOURCE','-U_FORTIFY_SOURCE','-fno-strict-aliasing','-fno-builtin-malloc','-w']))
    j.append(Job(f'{SIM}/rt/swap.S',f'{OUT}/obj/rt/swap.o',['-Wa,--noexecstack'],'gcc'))
    return j
def link(out,objs,cmd,extra=''):
    key=sh((' '.join(cmd)+extra+''.join(fhash(o) for o in objs)).encode())
    if os.path.exists(out) and os.path.exists(out+'.key') and open(out+'.key').read()==key: return False
    r=subprocess.run(cmd+['-o',out+'.tmp'],capture_output=True,text=True)
    if r.returncode: raise SystemExit('link failed: '+out+'\n'+r.stderr[-4000:])
    os.rename(out+'.tmp',out); open(out+'.key','w').write(key); return True
def build(names,jobs_n=8,quiet=False):
    os.makedirs(OUT,exist_ok=True)
    lk=open(OUT+'/lock','w'); fcntl.flock(lk,fcntl.LOCK_EX)
    make_includes()
    alljobs=rt_jobs(); per={}
    for n in names: per[n]=image_jobs(n); alljobs+=per[n]
    uniq={}
    for j in alljobs: uniq[j.obj]=j
    todo=[j for j in uniq.values() if not j.fresh()]
    big=lambda j:-os.path.getsize(j.src)
    todo.sort(key=big)
    if todo and not quiet: print(f'building {len(todo)} of {len(uniq)} objects',file=sys.stderr)
    with ThreadPoolExecutor(jobs_n) as ex: errs=[e for e in ex.map(lambda j:j.run(),todo) if e]
    if errs: sys.stderr.write('\n'.join(errs[:5])); raise SystemExit(3)
    for j in todo: _h.pop(j.obj,None)
    rt=[j.obj for j in rt_jobs()]
    link(f'{OUT}/simrun',rt,['g++','-rdynamic']+rt+['-ldl','-lpthread'])
    for n in names:
        im=IMAGES[n]; objs=[j.obj for j in per[n]]; k=im.get('copies',1)
        so=f'{OUT}/{n}.so'
        if link(so,objs,['g++','-shared','-Wl,-Bsymbolic','-Wl,--no-as-needed','-Wl,-z,now']+objs+[f'-l{x}' for x in im['libs']]) or not all(os.path.exists(f'{OUT}/{n}.{i}.so') for i in range(1,k)):
            for i in range(1,k): shutil.copy(so,f'{OUT}/{n}.{i}.so.tmp'); os.rename(f'{OUT}/{n}.{i}.so.tmp',f'{OUT}/{n}.{i}.so')
    lk.close()
def images(name):
    k=IMAGES[name].get('copies',1); return [f'{OUT}/{name}.so']+[f'{OUT}/{name}.{i}.so' for i in range(1,k)]
if __name__=='__main__':
    build(sys.argv[1:] or list(IMAGES))
