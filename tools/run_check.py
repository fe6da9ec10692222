#!/usr/bin/env python3
"""run_check.py PROPERTY TIER : builds the library from the repository's working tree, runs the monitored
workloads of the property and writes evidence/PROPERTY.json. Exit 0: held; 1: VIOLATION; 2: error."""
import sys, os, json, time, subprocess, re, shutil, tempfile
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build as B, checks as C
HERE=B.HERE
ENV={'ASAN_OPTIONS':'detect_leaks=0:malloc_fill_byte=255:max_malloc_fill_size=268435456:detect_stack_use_after_return=0:allocator_may_return_null=1:exitcode=77','UBSAN_OPTIONS':'print_stacktrace=1','TSAN_OPTIONS':'exitcode=66:halt_on_error=0:report_signal_unsafe=0:history_size=3','LC_ALL':'C'}
def known():
    k={}
    p=os.path.join(HERE,'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'finding: property=(\S+) id=(\S+) (.*)',l)
            if m: k[(m.group(1),m.group(2))]=m.group(3).strip()
    return k
def tail(path,n=3500):
    try:
        with open(path,errors='replace') as f: s=f.read()
        i=max(s.find('ERROR: AddressSanitizer'),s.find('runtime error:'),s.find('WARNING: ThreadSanitizer'),s.find('== Invalid '),s.find('uninitialised value'))
        if i>=0: return s[max(0,i-200):i+n]
        return s[-n:]
    except OSError: return ''
def run_shards(exe,variant,fams,mult,seed,tier,pid,tmp,limit,nsh=8,extra=(),wrap=()):
    procs=[]
    for s in range(nsh):
        out=os.path.join(tmp,'o.%s.%s.%d.jsonl'%(variant,fams.replace(',','_')[:40],s)); err=out+'.err'
        sc=os.path.join(tmp,'scratch.%s.%d'%(variant,s)); os.makedirs(sc,exist_ok=True)
        cmd=list(wrap)+[exe,'--out',out,'--seed',str(seed),'--tier',tier,'--fam',','+fams+',','--shard','%d/%d'%(s,nsh),'--mult',str(mult),'--scratch',sc]+list(extra)
        env=dict(os.environ); env.update(ENV); env.pop('OMP_NUM_THREADS',None)
        procs.append((subprocess.Popen(cmd,stdout=subprocess.DEVNULL,stderr=open(err,'w'),env=env,cwd=tmp),out,err,cmd))
    res=[]; t0=time.time()
    for p,out,err,cmd in procs:
        to=False
        try: p.wait(timeout=max(1,limit-(time.time()-t0)))
        except subprocess.TimeoutExpired: p.kill(); p.wait(); to=True
        summ=None; fails=[]; last=None
        if os.path.exists(out):
            for l in open(out,errors='replace'):
                try: d=json.loads(l)
                except ValueError: continue
                if d['t']=='begin': last=d
                elif d['t']=='fail': fails.append(d)
                elif d['t']=='summary': summ=d
        res.append(dict(rc=p.returncode,timeout=to,summary=summ,fails=fails,last=last,err=err,cmd=cmd))
    return res
def main():
    pid,tier=sys.argv[1],sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')
    seed=int(os.environ.get('VERIF_SEED','1')); t0=time.time()
    chk=C.CHECKS[pid]; kn=known(); kf={}
    evd=os.path.join(HERE,'evidence'); os.makedirs(evd,exist_ok=True)
    os.makedirs(B.BUILD,exist_ok=True)
    tmp=tempfile.mkdtemp(prefix='run.%s.'%pid,dir=B.BUILD)
    viol=[]; cov=dict(evaluations=0,distinct_nontrivial=0,rule=chk.get('rule',C.RULE_DEFAULT),samples=[],stages=[]); hashes=set()
    budget=200 if tier=='quick' else 1500
    err=None; undecided=[]
    try:
        for st in chk['stages']:
            har,var,fams,mq,mt=st[:5]; opts=st[5] if len(st)>5 else {}
            if opts.get('only') and opts['only']!=tier: continue
            tb=time.time()
            also=[x[0] for x in chk['stages'] if x[1]==var and (x[5] if len(x)>5 else {}).get('tag','')==opts.get('tag','') and not ((x[5] if len(x)>5 else {}).get('only') not in (None,tier))]
            exe=B.build(har,var,defs=opts.get('defs',()),extra_src=opts.get('extra',()),tag=opts.get('tag',''),also=also)
            xa=['--judge',opts['judge']] if opts.get('judge') else []; wr=list(opts.get('wrap',()))
            tr=time.time()
            res=run_shards(exe,var,fams,mq if tier=='quick' else mt,seed,tier,pid,tmp,budget,nsh=opts.get('shards',8),extra=xa,wrap=wr)
            stage=dict(harness=har,variant=var,families=fams,judged=opts.get('judge','all'),tool=' '.join(wr[:1]),build_s=round(tr-tb,1),run_s=round(time.time()-tr,1),counters={})
            for r in res:
                s=r['summary']
                if s:
                    cov['evaluations']+=s['evals']; hashes.update(har+var+h for h in s['hashes'].split())
                    for k,v in s['counters'].items(): stage['counters'][k]=max(stage['counters'].get(k,0),v) if k.endswith('maxlead') else stage['counters'].get(k,0)+v
                    if len(cov['samples'])<24: cov['samples']+=[dict(stage=var,case=x) for x in s['samples'][:2]]
                for f in r['fails']:
                    m=re.match(r'FINDING (\S+):',f['msg'])
                    if m and (pid,m.group(1)) in kn: kf.setdefault(m.group(1),f); continue
                    viol.append(dict(kind='oracle',variant=var,harness=har,fam=f['fam'],case=f['i'],desc=f['desc'],msg=f['msg'],defs=list(opts.get('defs',())),extra=list(opts.get('extra',())),tag=opts.get('tag',''),args=xa,wrap=wr))
                bad=None
                if r['timeout']: bad='timeout'
                elif s is None: bad='crash rc=%s'%r['rc']
                elif r['rc']!=0: bad='sanitizer rc=%s'%r['rc']
                if bad and opts.get('judge') in ('ro','race') and (var in ('hook','vg') or (var=='tsan' and 'data race' not in tail(r['err'],100000))):
                    undecided.append('%s %s/%s %s'%(bad,har,var,(r['last'] or {}).get('fam'))); continue
                if bad:
                    l=r['last'] or dict(fam='?',i=-1)
                    if bad=='timeout' and l['i']>=0:
                        # confirm: the same case alone must also fail to end
                        p2=os.path.join(tmp,'confirm.jsonl')
                        env=dict(os.environ); env.update(ENV)
                        try:
                            subprocess.run(wr+[exe,'--out',p2,'--seed',str(seed),'--tier',tier,'--fam',l['fam'],'--case',str(l['i']),'--mult',str(max(mq,mt)),'--scratch',tmp]+xa,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,timeout=120,env=env,cwd=tmp)
                            raise RuntimeError('workload did not finish within %ds, but case %s#%d alone did: machine too slow'%(budget,l['fam'],l['i']))
                        except subprocess.TimeoutExpired: pass
                    viol.append(dict(kind=bad,variant=var,harness=har,fam=l['fam'],case=l['i'],desc='',msg=tail(r['err']),defs=list(opts.get('defs',())),extra=list(opts.get('extra',())),tag=opts.get('tag',''),args=xa,wrap=wr))
            cov['stages'].append(stage)
            if viol: break
    except Exception as e:
        err=e
    finally:
        shutil.rmtree(tmp,ignore_errors=True)
    if err is not None:
        print('ERROR: %s'%err); sys.exit(2)
    if undecided and not viol:
        print('ERROR: runs ended without a verdict (the workload itself failed): %s'%'; '.join(undecided[:4])); sys.exit(2)
    cov['distinct_nontrivial']=len(hashes)
    ev=dict(property=pid,tier=tier,seed=seed,level='exploration',coverage=cov,assumptions=chk.get('assume',['threads are switched at library memory accesses and work-share boundaries; weaker-than-sequentially-consistent effects are only seen by the real-thread stages','g++ 13 -O1 builds of the sources']),wall_s=round(time.time()-t0,1),violations=len(viol))
    for i,k in sorted(kf.items()):
        print('KNOWN-FINDING: property=%s %s: %s'%(pid,i,kn[(pid,i)]))
    ev['coverage']['known_findings_seen']=sorted(kf)
    if viol:
        for n,v in enumerate(viol[:5]):
            rp=os.path.join(evd,'replay-%s-%d.json'%(pid,n)); v.update(property=pid,seed=seed,tier=tier)
            json.dump(v,open(rp,'w'),indent=1)
            print('%s %s#%s [%s/%s] %s\n  %s'%(v['kind'],v['fam'],v['case'],v['harness'],v['variant'],v['desc'],v['msg'][:1500]))
            if n==0: first=rp
        json.dump(ev,open(os.path.join(evd,pid+'.json'),'w'),indent=1)
        print('VIOLATION property=%s replay=%s'%(pid,first)); sys.exit(1)
    json.dump(ev,open(os.path.join(evd,pid+'.json'),'w'),indent=1)
    print('OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs'%(pid,tier,cov['evaluations'],cov['distinct_nontrivial'],ev['wall_s']))
main()
