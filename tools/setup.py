#!/usr/bin/env python3
# Nothing to prepare beyond the compilers: every check builds what it needs from /repo's working tree.
import subprocess,sys
for c in (['g++','--version'],['python3','--version']): subprocess.run(c,check=True,stdout=subprocess.DEVNULL)
print('ok')
