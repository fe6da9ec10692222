# Builds the library under test (from /repo's working tree) and a harness in one of the variants.
import os, subprocess, concurrent.futures as cf, hashlib, sys, glob
REPO=os.environ.get('VERIF_REPO','/repo')
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD=os.environ.get('VERIF_BUILD',os.path.join(HERE,'build'))
LIB=['helper_algorithms','rawsrmatrixutils','adjacency','scmatrix','reorderingscaling','csrmatrix','bsrmatrix','coomatrix','solverfactory','sai','solverops_sai','solverops_levels_sgs','solverops_levels_ilu0','relaxation_chaotic','solverops_jacobi','solverops_sgs','solverops_ilu0','solverops_base','async_blockilu_factor','async_ilu_factor','ilu_pattern','levelschedule','matrix_properties','blas/matvecs','blas/blas1','utils/prefix_sum']
BASE=['-std=c++14','-fopenmp','-msse4.2','-UNDEBUG','-DEIGEN_DONT_PARALLELIZE','-I/usr/include/eigen3','-I%s/include'%REPO,'-I%s/src'%REPO,'-w','-g1']
VAR={
 'plain':dict(lib=['-O1'],har=['-O1'],shim='fiber',link=[]),
 'asan':dict(lib=['-O1','-D_GLIBCXX_ASSERTIONS','-fno-omit-frame-pointer','-fsanitize=address,undefined','-fno-sanitize-recover=all','-fno-sanitize=vptr'],har=['-O1','-D_GLIBCXX_ASSERTIONS','-fsanitize=address,undefined','-fno-sanitize-recover=all','-fno-sanitize=vptr'],shim='fiber',link=['-fsanitize=address,undefined']),
 'hook':dict(lib=['-O1','-fsanitize=thread'],har=['-O1'],shim='hook',link=[]),
 'vg':dict(lib=['-O1'],har=['-O1'],shim='pthread',link=['-lpthread']),
 'tsan':dict(lib=['-O1','-fsanitize=thread'],har=['-O1','-fsanitize=thread'],shim='pthread',link=['-fsanitize=thread','-lpthread']),
}
# C programs of the repository that a harness drives; their main is renamed
PROG={'h_conv':('utils/util_petsc_io.c','hx_conv_main')}
class BuildError(Exception): pass
_hash={}
def treehash(dirs):
    k=tuple(dirs)
    if k not in _hash:
        h=hashlib.sha256()
        for d in dirs:
            for root,ds,fs in os.walk(d):
                ds.sort()
                for f in sorted(fs):
                    p=os.path.join(root,f); h.update(p.encode()); h.update(open(p,'rb').read())
        _hash[k]=h.hexdigest()
    return _hash[k]
RENAME=['objcopy']+[x for f in ('memcpy','memmove','memset') for x in ('--redefine-sym','%s=hx_%s'%(f,f))]
def cc(args,what,post=None):
    # reuse an object only if the command and the whole content of the source trees are unchanged
    st=None
    if '-c' in args:
        o=args[-1]; src=args[args.index('-c')+1]
        st=hashlib.sha256((repr(args)+repr(post)+treehash([os.path.join(REPO,'include'),os.path.join(REPO,'src')])+(treehash([os.path.join(HERE,'harness')]) if src.startswith(HERE) else '')).encode()).hexdigest()
        try:
            if open(o+'.stamp').read()==st and os.path.exists(o): return
        except OSError: pass
        if os.path.exists(o+'.stamp'): os.remove(o+'.stamp')
    r=subprocess.run(args,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: raise BuildError('%s failed:\n%s'%(what,r.stdout[-4000:]))
    if st and post:
        r=subprocess.run(post+[args[-1]],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if r.returncode: raise BuildError('%s failed:\n%s'%(' '.join(post),r.stdout[-2000:]))
    if st: open(args[-1]+'.stamp','w').write(st)
def libsources():
    # every translation unit of the library as the repository's own build lists it, minus PETSc and command-line parts
    out=[]
    for root,_,fs in os.walk(os.path.join(REPO,'src')):
        for f in fs:
            if f.endswith('.cpp'):
                p=os.path.relpath(os.path.join(root,f),os.path.join(REPO,'src'))[:-4]
                out.append(p)
    skip={'blasted_petsc','utils/blasted_petsc_io','utils/cmdoptions','solverops_sgs_sai'}
    return [x for x in LIB if x in out]+sorted(x for x in out if x not in LIB and x not in skip)
def build(harness,variant,defs=(),extra_src=(),jobs=8,tag='',also=()):
    # also: further harnesses of the same variant whose objects are compiled in the same parallel batch
    v=VAR[variant]; d=os.path.join(BUILD,variant+tag); os.makedirs(d,exist_ok=True)
    tasks=[]; libobj=[]
    srcs=libsources()
    for s in srcs:
        o=os.path.join(d,'lib_'+s.replace('/','_')+'.o'); libobj.append(o)
        tasks.append((s in LIB, ['g++']+BASE+v['lib']+list(defs)+['-c',os.path.join(REPO,'src',s+'.cpp'),'-o',o],s))
    # biggest first
    tasks.sort(key=lambda t: -os.path.getsize(t[1][t[1].index('-c')+1]))
    ho=[]
    hs=[harness]+list(extra_src)
    pre=[]
    for h in hs:
        o=os.path.join(d,os.path.basename(h)+'.o'); ho.append(o)
        hb=[x for x in BASE if x!='-std=c++14']
        pre.append((True,['g++','-std=c++17']+hb+v['har']+list(defs)+['-I'+os.path.join(HERE,'harness'),'-I'+os.path.join(HERE,'harness','mockpetsc','include'),'-c',os.path.join(HERE,'harness',h+'.cpp'),'-o',o],h))
    for h in also:
        if h in hs: continue
        pre.append((True,['g++','-std=c++17']+hb+v['har']+list(defs)+['-I'+os.path.join(HERE,'harness'),'-I'+os.path.join(HERE,'harness','mockpetsc','include'),'-c',os.path.join(HERE,'harness',h+'.cpp'),'-o',os.path.join(d,h+'.o')],h))
    for h in hs:
        if h in PROG:
            src,sym=PROG[h]; o=os.path.join(d,'prog_'+os.path.basename(src)+'.o'); ho.append(o)
            pre.append((True,['gcc','-std=gnu17','-fexceptions','-Dmain='+sym]+[x for x in BASE if x!='-std=c++14']+v['lib']+['-I'+os.path.join(HERE,'harness','mockpetsc','include'),'-c',os.path.join(REPO,'src',src),'-o',o],src))
    so=[os.path.join(d,'shim.o')]
    pre.append((True,['g++','-std=c++17','-O2','-g1','-w']+(['-DSHIM_PTHREAD'] if v['shim']=='pthread' else [])+['-c',os.path.join(HERE,'harness','shim.cpp'),'-o',so[0]],'shim'))
    if v['shim']=='hook':
        so.append(os.path.join(d,'hook.o')); pre.append((True,['g++','-std=c++17','-O2','-g1','-w','-c',os.path.join(HERE,'harness','hook.cpp'),'-o',so[1]],'hook'))
    optional=set()
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs={ex.submit(cc,t[1],t[2],RENAME if v['shim']=='hook' and t in tasks else None):t for t in pre+tasks}
        for f in cf.as_completed(futs):
            try: f.result()
            except BuildError:
                t=futs[f]
                if t[0]: raise
                optional.add(t[1][-1])   # a new source file that is not part of the default build
    libobj=[o for o in libobj if o not in optional]
    exe=os.path.join(d,harness+tag)
    wrap=['-Wl,--wrap=malloc,--wrap=posix_memalign,--wrap=aligned_alloc,--wrap=calloc'] if v['shim']=='hook' else []
    cc(['g++','-g1']+libobj+ho+so+v['link']+wrap+['-lboost_program_options','-lboost_system','-o',exe],'link '+harness)
    return exe
if __name__=='__main__':
    print(build(sys.argv[1],sys.argv[2]))
