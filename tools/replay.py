#!/usr/bin/env python3
"""replay.py FILE : re-runs the single case recorded by a VIOLATION line."""
import sys, json, os, subprocess, tempfile
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build as B
from importlib import import_module
v=json.load(open(sys.argv[1]))
exe=B.build(v['harness'],v['variant'],defs=v['defs'],extra_src=v['extra'],tag=v['tag'])
t=tempfile.mkdtemp(dir=B.BUILD)
env=dict(os.environ); env.update({'ASAN_OPTIONS':'detect_leaks=0:malloc_fill_byte=255:max_malloc_fill_size=268435456:detect_stack_use_after_return=0:exitcode=77','UBSAN_OPTIONS':'print_stacktrace=1'})
subprocess.run(v.get('wrap',[])+[exe,'--out',t+'/o','--seed',str(v['seed']),'--tier',v['tier'],'--fam',v['fam'],'--case',str(v['case']),'--mult','1000','--scratch',t]+v.get('args',[]),env=env)
print(open(t+'/o').read()[:4000])
