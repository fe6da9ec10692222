# property -> list of stages (harness, variant, families, multiplier quick, multiplier thorough)
RULE_DEFAULT='cases are generated from VERIF_SEED by seeded generators (matrix pattern kind, values, layout, settings, schedule); a case is non-trivial unless the generator discarded it (singular or badly conditioned reference), and distinct by the hash of its descriptor, its matrix values and its observed schedule trace'
CHECKS={
 'P01':dict(stages=[('h_matrix','asan','spmv',4,8),('h_matrix','hook','spmv',4,10),('h_matrix','asan','spmvL',1,4),('h_matrix','hook','spmvL',1,4)],tech='oracle on products executed under controlled schedules, ASan/UBSan, read-only and race monitors'),
 'P02':dict(stages=[('h_matrix','asan','asm',18,48),('h_matrix','hook','asm',18,48),('h_matrix','asan','asmL',4,12),('h_matrix','hook','asmL',2,8)],tech='online comparison of the real matrix with a dense model after every assembly history, under ASan/UBSan and access monitors'),
 'P03':dict(stages=[('h_matrix','hook','conc',60,240),('h_matrix','asan','conc',12,24),('h_matrix','asan','concL',2,8),('h_matrix','hook','concL',4,20)],tech='preemption of concurrent updates at every memory access, conservation oracle and race monitor'),
 'P04':dict(stages=[('h_matrix','asan','own',30,60),('h_matrix','hook','own',30,60),('h_matrix','asan','ownL',4,16),('h_matrix','hook','ownL',4,12)],tech='ownership model compared with real construct/copy/move/wrap/destroy histories under ASan with allocation accounting'),

 'P05':dict(stages=[('h_io','asan','mtx,dense,refuse',5,15),('h_io','asan','mtxL,denseL',2,8)],tech='generated Matrix Market files read by the real reader under ASan/UBSan, compared with the generating content; refusal observed in child processes'),
 'P06':dict(stages=[('h_io','asan','coo',6,12),('h_io','asan','cooL',4,10)],tech='converted storage compared with the coordinate entries after every generated conversion, under ASan/UBSan'),
 'P07':dict(stages=[('h_io','asan','bsc',12,30),('h_io','hook','bsc',6,12),('h_io','asan','bscL',4,12),('h_io','hook','bscL',4,8)],tech='column form compared block by block with the source, under ASan/UBSan with allocation accounting and read-only monitors'),
 'P08':dict(stages=[('h_ilu','asan','seq',6,12),('h_ilu','hook','seq',9,18),('h_ilu','asan','seqL',1.5,6),('h_ilu','hook','seqL',1.5,6)],tech='runtime oracle on recovered factors of sequential runs under ASan+UBSan and access monitors'),
 'P09':dict(stages=[('h_ilu','hook','async',20,25),('h_ilu','asan','async',6,6),('h_ilu','hook','asyncL',1,4),('h_ilu','asan','asyncL',1,4)],tech='controlled-schedule execution of the real asynchronous factorisation with preemption at every memory access, checked against exact factors'),
 'P10':dict(stages=[('h_ilu','hook','apply',20,25),('h_ilu','asan','apply',6,6),('h_ilu','hook','applyL',1,4),('h_ilu','asan','applyL',1,4)],tech='controlled-schedule execution of the real application sweeps, checked against exact triangular solves'),
 'P11':dict(stages=[('h_relax','asan','jacobi',6,20),('h_relax','hook','jacobi',8,20),('h_relax','asan','jacobiL',2,8),('h_relax','hook','jacobiL',2,8)],tech='block-diagonal inverse recovered from applications under controlled schedules, ASan/UBSan, read-only and race monitors'),
 'P12':dict(stages=[('h_relax','hook','sgs',40,80),('h_relax','asan','sgs',15,40),('h_relax','hook','sgsL',2,8),('h_relax','asan','sgsL',2,8)],tech='controlled-schedule execution of the real sweeps with preemption at every memory access, checked against exact triangular solves'),
 'P13':dict(stages=[('h_relax','hook','relax,chaotic,norelax',24,48),('h_relax','asan','relax,chaotic,norelax',12,32),('h_relax','hook','relaxL,chaoticL',2,6),('h_relax','asan','relaxL,chaoticL',2,6)],tech='relaxation histories under controlled schedules checked against the exact solution, the model iteration and the tolerances'),
 'P14':dict(stages=[('h_relax','hook','levels,lvlapply',24,48),('h_relax','asan','levels,lvlapply',12,32),('h_relax','hook','levelsL,lvlapplyL',2,6),('h_relax','asan','levelsL,lvlapplyL',2,6)],tech='schedule and level oracle; level-scheduled runs under a strict race monitor compared with sequential runs'),
 'P15':dict(stages=[('h_reord','asan','reord',6,18),('h_reord','hook','reord',6,12),('h_reord','asan','reordL',1.5,6),('h_reord','hook','reordL',1.5,6)],tech='dense model of reordering and scaling compared with the real matrix and vectors after every operation, under ASan/UBSan'),
 'P16':dict(stages=[('h_reord','asan','rilu',6,18),('h_reord','hook','rilu',6,15),('h_reord','asan','riluL',1.5,6),('h_reord','hook','riluL',1.5,6)],tech='reordered applications compared with a dense factorisation of the explicitly permuted matrix'),
 'P17':dict(stages=[('h_sai','asan','sai',2,6),('h_sai','hook','sai',4,8),('h_sai','asan','saiL',1,3),('h_sai','hook','saiL',1,3)],tech='recovered approximate inverse checked row by row against the normal equations of its least-squares problems'),
 'P18':dict(stages=[('h_fact','asan','names,build,refuse',3,8),('h_fact','hook','names,build',3,8),('h_fact','asan','promise',8,24),('h_fact','hook','promise',8,24),('h_fact','asan','names,build,refuse',1,3,dict(defs=('-DBUILD_BLOCK_SIZE=6',),tag='6')),('h_fact','asan','buildL',1,4),('h_fact','hook','buildL',1,4)],tech='operators built by the real factory executed under controlled schedules and compared with directly constructed operators and dense references; refusals observed with allocation accounting'),
 'P19':dict(stages=[('h_fact','asan','history,together',25,70),('h_fact','hook','history,together',25,70),('h_fact','asan','historyL',2,8),('h_fact','hook','historyL',2,8)],tech='histories of value changes, computations and applications compared bit for bit with a fresh operator'),
 'P20':dict(stages=[('h_ops','hook','ro,race',4,10,dict(judge='ro')),('h_ops','asan','ro,race',2,6),('h_matrix','hook','spmv,asm,own,dstat',1,3,dict(judge='ro')),('h_ilu','hook','seq,async,apply,diag',2,8,dict(judge='ro')),('h_relax','hook','jacobi,sgs,relax,chaotic,levels,lvlapply',3,8,dict(judge='ro')),('h_reord','hook','reord,rilu',2,6,dict(judge='ro')),('h_io','hook','coo,bsc',1,3,dict(judge='ro')),('h_ops','hook','roL,raceL',1,3,dict(judge='ro'))],tech='every store the library makes, and every memcpy or memset it calls, is compared with the ranges declared read-only; guard zones around outputs under ASan'),
 'P21':dict(stages=[('h_ops','hook','ro,race',4,10,dict(judge='race')),('h_ops','tsan','race,ro',1,3,dict(judge='race')),('h_matrix','hook','spmv,asm,conc,dstat',1,3,dict(judge='race')),('h_ilu','hook','seq,async,apply,diag',2,8,dict(judge='race')),('h_relax','hook','jacobi,sgs,relax,chaotic,levels,lvlapply',3,8,dict(judge='race')),('h_reord','hook','reord,rilu',2,6,dict(judge='race')),('h_help','hook','psum,scan,sort,norm',2,6,dict(judge='race')),('h_ops','hook','raceL,roL',1,3,dict(judge='race')),('h_ops','tsan','raceL',0.5,2,dict(judge='race'))],tech='own happens-before race detector over instrumented accesses under controlled preemption, and ThreadSanitizer with real threads'),
 'P22':dict(stages=[('h_ops','asan','life,ro,race',3,8,dict(judge='mem')),('h_matrix','asan','spmv,asm,own,dstat',1,4,dict(judge='mem')),('h_ilu','asan','seq,async,apply,diag',2,6,dict(judge='mem')),('h_relax','asan','jacobi,sgs,relax,chaotic,levels,lvlapply',2,6,dict(judge='mem')),('h_reord','asan','reord,rilu',2,6,dict(judge='mem')),('h_io','asan','mtx,dense,coo,bsc',1,3,dict(judge='mem')),('h_sai','asan','sai',0.5,3,dict(judge='mem')),('h_fact','asan','names,build,promise,refuse,history,together',0.5,3,dict(judge='mem')),('h_help','asan','psum,scan,sort,norm',1,3,dict(judge='mem')),('h_ops','vg','life,ro,race',0.3,2,dict(judge='mem',wrap=('valgrind','-q','--error-exitcode=99','--num-callers=12'))),('h_ops','asan','roL,raceL,lifeL',1,3,dict(judge='mem'))],tech='AddressSanitizer, UndefinedBehaviorSanitizer with library assertions on, allocation accounting and Valgrind memcheck over every workload'),
 'P24':dict(stages=[('h_help','asan','psum,scan,sort,norm',24,80),('h_help','hook','psum,scan,sort,norm',32,80)],tech='helper results compared with sequential models under controlled schedules, ASan/UBSan and race monitor'),
 'P25':dict(stages=[('h_petsc','asan','stack,twice,refuse',8,24),('h_petsc','hook','stack,twice',8,20),('h_petsc','asan','stackL',2,12)],tech='the real interface driven through a monitored stand-in for PETSc and compared bit for bit with directly built operators, under ASan/UBSan, allocation accounting and access monitors'),
 'P23':dict(stages=[('h_ilu','asan','diag,initzero',24,48),('h_matrix','asan','dstat',12,30),('h_ilu','hook','diag,initzero',30,60),('h_matrix','asan','dstatL',4,12),('h_matrix','hook','dstat,dstatL',4,12)],tech='reported diagnostics compared with values recomputed from the recovered factors'),
 'P26':dict(stages=[('h_sweep','asan','fact,tri,sgs,relax',16,60),('h_sweep','hook','fact,tri,sgs,relax',12,40),('h_sweep','asan','factL,triL,sgsL,relaxL',6,24)],tech='recorded order of executed portions replayed in extended precision with running error bounds and compared with the real iterates'),
 'P27':dict(stages=[('h_petsc','asan','fault',12,60),('h_petsc','asan','refuse',6,20),('h_petsc','hook','fault',3,10)],tech='systematic failure of every single PETSc call of recorded histories of the real interface, with a monitor for swallowed errors and a bitwise oracle for what follows, under ASan/UBSan and allocation accounting'),
 'P28':dict(stages=[('h_pio','asan','mat,vec,opts',4,40),('h_pio','asan','matL,vecL',6,24)],tech='files and option sets read by the real code into a monitored stand-in for PETSc, compared with their content, with every PETSc call made to fail once, under ASan/UBSan and allocation accounting'),
 'P29':dict(stages=[('h_conv','asan','conv',8,40),('h_conv','asan','convL',3,10)],tech='the real program run through a monitored stand-in for PETSc that records every file it opens and object it writes, with names up to the limit of the system and every PETSc call failing once, under ASan/UBSan with allocation accounting'),
 'P30':dict(stages=[('h_host','hook','callers',4,16),('h_host','asan','callers',2,8),('h_host','tsan','callers',0.5,2),('h_host','hook','callersL',1,4),('h_host','asan','callersL',1,4)],tech='independent call sequences run at the same time under controlled preemption at every memory access and with real threads, compared bit for bit with running alone, under race monitors, ThreadSanitizer and ASan/UBSan'),
 'P31':dict(stages=[('h_host','asan','state',15,50),('h_host','plain','state',15,50),('h_host','asan','stateL',1,4)],tech='snapshots of the process-wide state compared around generated call sequences under ASan/UBSan'),
}
NA={}
