// P30 callers do not disturb one another: independent programs run at the same time from the threads of a caller's
// parallel region. P31 process-wide state is left as found.
#define HX_NO_MAIN
#include "h_ops.cpp"
#include <cfenv>
#include <csignal>
#include <locale>
#include <clocale>
#include <xmmintrin.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/resource.h>
extern char**environ;
typedef std::vector<double> Res;
typedef std::function<void(Res&)> Step;
static void put(Res&o,const double*p,size_t n){ o.insert(o.end(),p,p+n); }
static void put(Res&o,const DBuf&b){ put(o,b.p,b.n); }
struct Program { std::vector<Step> steps; Res out; bool threw=false; std::string desc;
	void run(){ out.clear(); threw=false; try{ for(auto&s:steps) s(out); } catch(...){ threw=true; } } };
typedef std::shared_ptr<SM> PM;
struct World { Ctx x; std::map<std::string,PM> shared; bool share; World(Case&c,bool s):x(c,false),share(s){}
	// a matrix: the callers either all hold their own or read one they have in common
	PM mat(int bs,bool rm,bool sym,int maxb=0){ std::string k=fmt("%d%d%d%d",bs,rm,sym,maxb); if(share&&shared.count(k)) return shared[k]; PM m(new SM(mk(x,bs,rm,sym,maxb))); if(share) shared[k]=m; return m; } };
typedef std::shared_ptr<DBuf> PV;
static PV vec(Rng&g,int n){ return PV(new DBuf(genvec(g,n))); }
template<class V> static void products(const V&A,const DBuf&v,const DBuf&w,Res&o){ DBuf z(v.n,0.0); A.apply(v.p,z.p); put(o,z); A.gemv3(1.5,v.p,-0.5,w.p,z.p); put(o,z); }
template<int bs,StorageOptions st> static Step st_view(World&w){ PM m=w.mat(bs,st==RowMajor,false); PV v=vec(w.x.g,m->n()),y=vec(w.x.g,m->n()); return [=](Res&o){ BSRMatrixView<double,int,bs,st> A(wrap(*m)); products(A,*v,*y,o); }; }
static Step st_csr(World&w){ PM m=w.mat(1,false,false); PV v=vec(w.x.g,m->n()),y=vec(w.x.g,m->n()); return [=](Res&o){ CSRMatrixView<double,int> A(wrap(*m)); products(A,*v,*y,o); }; }
template<int bs> static Step st_owned(World&w){ PM m=w.mat(bs,true,false); PV v=vec(w.x.g,m->n()),y=vec(w.x.g,m->n()); double f=w.x.g.sym(); return [=](Res&o){ SM t=*m; BSRMatrix<double,int,bs> A(m->nb,t.rp.p,t.ci.p,t.v.p,t.di.p); products(A,*v,*y,o); BSRMatrix<double,int,bs> B(A); B.scaleAll(f); products(B,*v,*y,o); std::array<bool,5> e=A.isEqual(B,1e-12); for(bool b:e) o.push_back(b); B.setDiagZero(); products(B,*v,*y,o);
	if constexpr(bs==1){ o.push_back(A.getDiagonalProduct()); o.push_back(A.getDiagonalAbsSum()); o.push_back(A.getAbsMinDiagonalEntry()); o.push_back(A.getAbsMaxDiagonalEntry()); } }; }
template<int bs> static Step st_assemble(World&w){ PM m=w.mat(bs,true,false); PV v=vec(w.x.g,m->n()); uint64_t s=w.x.g.next(); return [=](Res&o){ Rng g(s); BSRMatrix<double,int,bs> A; SM t=*m; A.setStructure(m->nb,t.ci.p,t.rp.p); A.setAllZero(); DBuf b(bs*bs,0.0); for(int i=0;i<m->nb;i++){ for(int j=m->rp[i];j<m->rp[i+1];j++){ for(double&q:b) q=g.sym(); if(g.chance(0.5)) A.submitBlock(i*bs,m->ci[j]*bs,b.p,bs,bs); else A.updateBlock(i*bs,m->ci[j]*bs,b.p,bs,bs); } for(double&q:b) q=g.sym(); A.updateDiagBlock(i*bs,b.p,bs); } DBuf z(m->n(),0.0); A.apply(v->p,z.p); put(o,z); }; }
template<int bs,StorageOptions st> static Step st_columns(World&w){ PM m=w.mat(bs,st==RowMajor,false); PV v=vec(w.x.g,m->n()),y=vec(w.x.g,m->n()); return [=](Res&o){ CRawBSRMatrix<double,int> r=craw(*m); CRawBSCMatrix<double,int> c; convert_BSR_to_BSC<double,int,bs>(&r,&c); put(o,c.vals,(size_t)m->nnzb()*bs*bs); for(int i=0;i<m->nnzb();i++) o.push_back(c.browind[i]); DBuf z(m->n(),0.0); bcsc_gemv3<double,int,bs,st>(&c,1.25,v->p,0.5,y->p,z.p); put(o,z); alignedDestroyCRawBSCMatrix(c); }; }
static Step st_struct(World&w){ PM m=w.mat(1,false,false),sy=w.mat(1,false,true); return [=](Res&o){ CRawBSRMatrix<double,int> r=craw(*m),r2=craw(*sy); { Store st(m->rp.p,m->ci.p,m->v.p,m->di.p,m->re.p,m->nb,m->nnzb(),m->nnzb(),1); ColumnAdjacency<double,int> ca(st); (void)ca; }
	for(int l:computeLevels(&r2)) o.push_back(l); compute_ILU_positions_CSR_CSR(&r); CRawBSRMatrix<double,int> l=getLowerTriangularView(r); alignedDestroyRawBSRMatrixTriangularView(reinterpret_cast<RawBSRMatrix<double,int>&>(l)); }; }
template<int bs,StorageOptions st> static Step st_dom(World&w){ PM m=w.mat(bs,st==RowMajor,false); return [=](Res&o){ std::array<double,4> d=diagonal_dominance<double,int,bs,st>(wrap(*m)); for(double q:d) o.push_back(q); }; }
template<int bs> static Step st_sai(World&w){ PM m=w.mat(bs,false,false,bs==1?16:5); bool full=w.x.g.chance(0.5); int ch=w.x.g.range(1,4); return [=](Res&o){ CStore cm=wrap(*m); LeftSAIPattern<int> sp= full? left_SAI_pattern<double,int>(wrap(*m)) : left_incomplete_SAI_pattern<double,int>(wrap(*m)); SM a=*m; for(double&q:a.v) q=0; { Store t(a.rp.p,a.ci.p,a.v.p,a.di.p,a.re.p,m->nb,m->nnzb(),m->nnzb(),bs); compute_SAI<double,int,bs,ColMajor>(cm,sp,ch,full,t); } put(o,a.v.p,a.v.n); }; }
static Step st_rilu(World&w){ Rng&g=w.x.g; PM m=w.mat(1,false,true,14); std::vector<int> p=shuffled(g,m->nb); PV v=vec(g,m->n()); int nb=g.range(1,3),na=g.range(1,3),ch=g.range(1,4),fi=g.below(3),ai=g.below(2); bool tf=g.chance(0.5),ta=g.chance(0.5); return [=](Res&o){ PermRS rs; rs.r=p; rs.c=p; ReorderedAsyncILU0_SRPreconditioner<double,int> q(wrap(*m),&rs,nb,na,ch,(FactInit)fi,(ApplyInit)ai,tf,ta); q.compute(); DBuf z(m->n(),0.0); q.apply(v->p,z.p); put(o,z); }; }
template<int bs> static Step st_rs(World&w){ Rng&g=w.x.g; int n=g.range(1,bs==1?40:10); std::vector<int> a=shuffled(g,n),b=shuffled(g,n); std::vector<double> r(n),c(n); for(auto&v:r) v=0.5+g.uni(); for(auto&v:c) v=0.5+g.uni(); PV u=vec(g,n*bs); return [=](Res&o){ VRS<bs> rs; std::vector<int> a2=a,b2=b; rs.setOrdering(a2.data(),b2.data(),n); rs.scales(r,c); DBuf v=*u; for(int d=0;d<2;d++) for(int mo=0;mo<2;mo++){ rs.applyOrdering(v.p,mo?INVERSE:FORWARD,d?COLUMN:ROW); put(o,v); rs.applyScaling(v.p,mo?INVERSE:FORWARD,d?COLUMN:ROW); put(o,v); } }; }
static Step st_helpers(World&w){ Rng&g=w.x.g; int n=g.below(60); PV u=vec(g,n); std::vector<int> a(n); for(int&q:a) q=g.below(9); return [=](Res&o){ IBuf b(n,0); for(int i=0;i<n;i++) b[i]=a[i]; prefix_sum(b.p,n); for(int i=0;i<n;i++) o.push_back(b[i]); device_vector<double> v(u->p,u->p+n); o.push_back(maxnorm(v)); }; }
static Step st_coo(World&w,int id){ PM m=w.mat(1,false,false,12); std::string f=scratch()+fmt("/host%d.mtx",id); { FILE*o=fopen(f.c_str(),"w"); fprintf(o,"%%%%MatrixMarket matrix coordinate real general\n%d %d %d\n",m->nb,m->nb,m->nnzb()); for(int i=m->nb-1;i>=0;i--) for(int j=m->rp[i];j<m->rp[i+1];j++) fprintf(o,"%d %d %.17g\n",i+1,m->ci[j]+1,m->v[j]); fclose(o); }
	return [=](Res&o){ COOMatrix<double,int> c; c.readMatrixMarket(f); SRMatrixStorage<double,int> s=getSRMatrixFromCOO<double,int,1>(c,"rowmajor"); for(int i=0;i<m->nnzb();i++){ o.push_back(s.vals[i]); o.push_back(s.bcolind[i]); } }; }
static const char*OPT[]={"none","jacobi","gs","sgs","ilu0","seqilu0","sfilu0","sapilu0","cscbgs","level_sgs","async_level_ilu0"};
static Step st_prec(World&w,std::string&d){ Rng&g=w.x.g; Shape sh=genshape(g); int k; do k=g.below(11); while(k==8&&sh.bs>1); PM m=w.mat(sh.bs,sh.rm,k>=9); Set s; s.type=OPT[k]; s.scale=g.chance(0.5); s.info=g.chance(0.4); s.chunk=anychunk(g,g.pick<int>({1,1,2,3,8})); s.nb=g.range(1,4); s.na=g.range(1,4); s.fi=(FactInit)g.below(3); s.ai=(ApplyInit)g.below(2); d+=setdesc(s)+" ";
	int reps=g.range(1,2); PV r=vec(g,m->n()),r2=vec(g,m->n()); uint64_t ps=g.next(); count(std::string("op_")+s.type);
	return [=](Res&o){ std::unique_ptr<Prec> p=make(*m,s); for(int q=0;q<reps;q++){ p->compute(); DBuf z(m->n(),0.0); p->apply(q?r2->p:r->p,z.p); put(o,z); } if(p->relaxationAvailable()){ Rng h(ps); setp(*p,h); DBuf z(m->n(),0.5); p->apply_relax(r->p,z.p); put(o,z); } }; }
static Step step(World&w,int id,std::string&d){ Rng&g=w.x.g; 
	switch(g.below(20)){
	case 0: return st_csr(w); case 1: return g.chance(0.5)?st_view<4,RowMajor>(w):st_view<5,ColMajor>(w); case 2: return g.chance(0.5)?st_owned<1>(w):st_owned<3>(w); case 3: return st_owned<7>(w);
	case 4: return g.chance(0.5)?st_assemble<1>(w):st_assemble<3>(w); case 5: return g.chance(0.5)?st_columns<3,ColMajor>(w):st_columns<7,RowMajor>(w); case 6: return st_struct(w); case 7: return g.chance(0.5)?st_dom<1,ColMajor>(w):st_dom<4,ColMajor>(w);
	case 8: return g.chance(0.5)?st_sai<1>(w):st_sai<4>(w); case 9: return st_rilu(w); case 10: return g.chance(0.5)?st_rs<1>(w):st_rs<4>(w); case 11: return st_helpers(w); case 12: return st_coo(w,id);
	default: return st_prec(w,d); } }
static bool same(const Res&a,const Res&b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(memcmp(&a[i],&b[i],8)&&!(std::isnan(a[i])&&std::isnan(b[i]))) return false; return true; }
static void fam_callers(Case&c){ Rng&g=c.rng; int K=g.range(2,c.big?4:6); World w(c,g.chance(0.5)); std::vector<Program> P(K); 
	// often the same kind of program in all callers, so that they are in the same code together
	bool alike=g.chance(0.6); uint64_t s0=g.next(); int ns=g.range(1,3); std::string d; for(int k=0;k<K;k++){ if(alike) w.x.g.s=hmix(s0,w.share?0:k&1); for(int q=0;q<ns;q++) P[k].steps.push_back(step(w,k*4+q,d)); if(alike) w.x.g.s=hmix(s0,99+k); }
	c.note(fmt("%d callers %d steps%s%s %s",K,ns,alike?" alike":"",w.share?" sharing matrices":"",d.substr(0,160).c_str())); Sched sc=gensched(g,8); if(!sc.quantum&&g.chance(0.7)) sc.quantum=g.range(1,60); c.note(sdesc(sc)); std::vector<Res> ref(K);
	std::vector<std::unique_ptr<SM>> keep; for(auto&p:w.shared){ ro_mat(*p.second); keep.emplace_back(new SM(*p.second)); }
	auto solo=[&]{ Sched one; apply_sched(one); if(shim_race_mode) shim_race_mode(0); for(int k=0;k<K;k++){ P[k].run(); REQUIRE(!P[k].threw,"caller %d alone: unexpected exception",k); ref[k]=P[k].out; } };
	bool before=!TSAN; if(before) solo(); // elsewhere the callers together run first, so that nothing is initialised yet
	std::vector<Res> got(K); std::vector<char> threw(K,0);
	for(int rep=0;rep<(c.big?1:2);rep++){ Sched s=sc; s.seed=hmix(sc.seed,rep); apply_sched(s); if(shim_race_mode) shim_race_mode(1);
		#pragma omp parallel for num_threads(K) schedule(static,1)
		for(int k=0;k<K;k++) shim_foreign_call([](void*q){ ((Program*)q)->run(); },&P[k]); // as a thread of its own, not as part of this team
		if(shim_race_mode) shim_race_mode(0);
		if(rep==0||before) for(int k=0;k<K;k++){ if(rep==0){ got[k]=P[k].out; threw[k]=P[k].threw; } else { REQUIRE(!P[k].threw,"caller %d of %d: exception only when other callers are active",k,K); REQUIRE(same(P[k].out,ref[k]),"caller %d of %d got other results because other callers were active",k,K); } } }
	if(!before) solo();
	for(int k=0;k<K;k++){ REQUIRE(!threw[k],"caller %d of %d: exception only when other callers are active",k,K); REQUIRE(same(got[k],ref[k]),"caller %d of %d got other results because other callers were active",k,K); count("callers_compared"); count("values_compared",ref[k].size()); }
	size_t q=0; for(auto&p:w.shared){ Frozen f(*keep[q++]); REQUIRE(p.second->v==f.m.v&&p.second->ci==f.m.ci&&p.second->rp==f.m.rp,"a shared matrix was changed"); }
	for(int k=0;k<K;k++) for(int s=0;s<ns;s++) unlink((scratch()+fmt("/host%d.mtx",k*4+s)).c_str());
	if(shim_ro_clear) shim_ro_clear(); note_trace(c); }
// ---------------------------------------------------------------- P31
struct Snap { std::vector<std::pair<std::string,std::string>> v; void add(const char*k,const std::string&s){ v.emplace_back(k,s); } };
static std::string ios(std::ios&s){ return fmt("flags %lx precision %ld width %ld fill %d exceptions %d tie %p buffer %p",(unsigned long)s.flags(),(long)s.precision(),(long)s.width(),(int)s.fill(),(int)s.exceptions(),(void*)s.tie(),(void*)s.rdbuf())+" "+s.getloc().name(); }
static Snap snap(){ Snap s; unsigned short cw; asm volatile("fnstcw %0":"=m"(cw)); s.add("the floating-point control words",fmt("rounding %d control %x %x",fegetround(),_mm_getcsr()&~0x3fu,(unsigned)cw)); s.add("the locale",std::string(setlocale(LC_ALL,nullptr))+" "+std::locale().name());
	s.add("std::cout",ios(std::cout)); s.add("std::cerr",ios(std::cerr)); s.add("std::clog",ios(std::clog)); s.add("std::cin",ios(std::cin));
	omp_sched_t k; int ch; omp_get_schedule(&k,&ch); s.add("the OpenMP settings",fmt("threads %d dynamic %d nested %d schedule %d,%d",omp_get_max_threads(),omp_get_dynamic(),omp_get_nested(),(int)k,ch));
	std::string f; if(DIR*d=opendir("/proc/self/fd")){ std::set<int> o; while(dirent*e=readdir(d)) if(e->d_name[0]!='.') o.insert(atoi(e->d_name)); o.erase(dirfd(d)); closedir(d); for(int i:o) f+=fmt("%d ",i); } s.add("the set of open files",f);
	f.clear(); for(int i=1;i<32;i++){ struct sigaction a; if(!sigaction(i,nullptr,&a)) f+=fmt("%p ",(void*)a.sa_handler); } sigset_t m; pthread_sigmask(SIG_BLOCK,nullptr,&m); for(int i=1;i<32;i++) f+=sigismember(&m,i)?'1':'0'; s.add("signal handling",f);
	mode_t u=umask(0); umask(u); s.add("the file creation mask",fmt("%o",(unsigned)u)); char b[4096]; s.add("the working directory",getcwd(b,sizeof b)?b:"?"); f.clear(); for(char**e=environ;*e;e++) f+=std::string(*e)+"\n"; s.add("the environment",f);
	s.add("the terminate handler",fmt("%p %p",(void*)std::get_terminate(),(void*)std::get_new_handler())); struct rlimit r; f.clear(); for(int i:{RLIMIT_STACK,RLIMIT_NOFILE,RLIMIT_CORE,RLIMIT_DATA}){ getrlimit((__rlimit_resource)i,&r); f+=fmt("%lu %lu ",(unsigned long)r.rlim_cur,(unsigned long)r.rlim_max); } s.add("the resource limits",f);
	f.clear(); if(DIR*d=opendir(scratch().c_str())){ std::set<std::string> o; while(dirent*e=readdir(d)) o.insert(e->d_name); closedir(d); for(auto&x:o) f+=x+" "; } s.add("the files present",f); return s; }
static void fam_state(Case&c){ Rng&g=c.rng; int n=g.range(1,6); uint64_t s0=g.next();
	// settings the caller may have made
	static const int R[]={FE_TONEAREST,FE_TONEAREST,FE_UPWARD,FE_DOWNWARD,FE_TOWARDZERO}; int rm=R[g.below(5)]; bool ftz=g.chance(0.2); unsigned csr=_mm_getcsr(); fesetround(rm); if(ftz) _mm_setcsr(_mm_getcsr()|0x8040);
	if(g.chance(0.5)) std::cout<<std::hex; if(g.chance(0.5)) std::cout.precision(g.range(1,17)); if(g.chance(0.3)) std::cerr<<std::scientific; if(g.chance(0.3)) std::cout.fill('*'); unsigned rs=(unsigned)g.next(); srand(rs); int kind=g.below(4); omp_set_schedule((omp_sched_t)(1+g.below(3)),g.range(1,9)); if(g.chance(0.3)) omp_set_dynamic(1);
	int loc=g.below(4); static const std::locale old; if(loc==1) setlocale(LC_ALL,"C.utf8"); if(loc==2){ try{ std::locale::global(std::locale("C.utf8")); } catch(const std::exception&){} } if(loc==3){ struct comma : std::numpunct<char> { std::string do_grouping() const override{ return ""; } }; std::locale::global(std::locale(std::locale(),new comma)); } std::locale was; // the caller's locale (numbers are written as in C)
	std::string bad; icvdirty()=0; Snap a=snap();
	{ Case k(s0,c.idx,c.thorough); k.big=c.big; Ctx x(k,true); std::vector<std::unique_ptr<Held>> pool;
		try { for(int i=0;i<n;i++){ k.desc.clear(); switch(x.g.below(8)){ case 0: case 1: case 2: op_held(x,pool); break; case 3: op_refused(x); break; case 4: op_assemble<3>(x); break; default: runop(x); if(shim_ro_clear) shim_ro_clear(); } c.desc+=k.desc.substr(0,80)+"; "; }
			// the numbers of threads the calls were made with are the harness's own; the last is still in force
			if(omp_get_max_threads()!=lastT()) icvdirty()++; } catch(const Violation&){ bad="-"; } }
	if(icvdirty()) bad=fmt("the default number of threads was found changed %d times",(int)icvdirty());
	omp_set_num_threads(1); lastT()=1; Snap b=snap(); bool lsame=std::locale()==was; std::locale::global(old); setlocale(LC_ALL,"C"); if(!lsame&&bad.empty()) bad="the global locale was changed"; fesetround(FE_TONEAREST); _mm_setcsr(csr); std::cout.copyfmt(std::ios(nullptr)); std::cerr.flags(std::ios::dec|std::ios::skipws|std::ios::unitbuf); omp_set_dynamic(0); omp_set_schedule((omp_sched_t)2,1); (void)kind;
	if(bad=="-"){ bad.clear(); count("results_not_judged"); }
	int want; { int got=rand(); srand(rs); want=rand(); if(bad.empty()&&got!=want) bad="the random number generator was advanced or reseeded"; }
	for(size_t i=0;bad.empty()&&i<a.v.size();i++) if(a.v[i]!=b.v[i]) bad=fmt("%s changed: before [%.300s] after [%.300s]",a.v[i].first.c_str(),a.v[i].second.c_str(),b.v[i].second.c_str());
	count("state_items_compared",a.v.size()+2); c.note(fmt("rounding %d ftz %d, %d operations",rm,ftz,n)); note_trace(c); if(!bad.empty()) FAIL("%s",bad.c_str()); }
int main(int argc,char**argv){ return run(argc,argv,{{"callers",fam_callers,600,6000},{"state",fam_state,500,5000},{"callersL",large(fam_callers),30,300},{"stateL",large(fam_state),30,300}}); }
