// P29 the program that converts Matrix Market files to PETSc's binary format, driven by a stand-in for PETSc
#include "piomock.hpp"
#include <sys/stat.h>
#include <sys/wait.h>
extern "C" int hx_conv_main(int,char**);   // main of src/utils/util_petsc_io.c, compiled as C
struct _p_PetscViewer { std::string path; PetscFileMode mode=FILE_MODE_UNDEFINED; bool binary=false,open=false; };
struct Snap { bool vec; _p_Mat m; _p_Vec v; };
static std::set<PetscViewer> g_views; static std::map<std::string,std::vector<Snap>> g_files; static std::vector<std::string> g_order; static int g_init=0,g_fin=0;
static int live(PetscViewer v,const char*f){ if(!g_views.count(v)){ misuse(std::string(f)+" on something that is not a viewer"); return 62; } return 0; }
static int vopen(PetscViewer v){ if(v->mode!=FILE_MODE_WRITE){ misuse("a file is not opened for writing"); return 73; } FILE*f=fopen(v->path.c_str(),"wb"); if(!f) return PETSC_ERR_FILE_OPEN; fclose(f); g_files[v->path].clear(); g_order.push_back(v->path); v->open=true; return 0; }
static int writable(PetscViewer v,const char*f){ if(!v->open||!v->binary){ misuse(std::string(f)+" to a viewer that is not an open binary file"); return 73; } return 0; }
extern "C" {
PetscErrorCode PetscInitialize(int*argc,char***argv,const char*,const char*){ if(g_init++){ misuse("initialised twice"); return 73; } TICK for(int i=1;i<*argc;i++){ const char*a=(*argv)[i]; if(a[0]!='-') continue; std::string v; if(i+1<*argc&&(*argv)[i+1][0]!='-') v=(*argv)[++i]; g_opt[a]=v; } return 0; }
PetscErrorCode PetscFinalize(void){ g_fin++; if(g_fin>1||!g_init) misuse("finalised without having been initialised"); TICK return 0; }
PetscErrorCode PetscViewerCreate(MPI_Comm,PetscViewer*v){ TICK *v=new _p_PetscViewer; g_views.insert(*v); return 0; }
PetscErrorCode PetscViewerSetType(PetscViewer v,PetscViewerType t){ TICK LIVE(v) v->binary=!strcmp(t,PETSCVIEWERBINARY); return 0; }
PetscErrorCode PetscViewerFileSetMode(PetscViewer v,PetscFileMode m){ TICK LIVE(v) v->mode=m; return 0; }
PetscErrorCode PetscViewerFileSetName(PetscViewer v,const char*n){ TICK LIVE(v) v->path=n; return vopen(v); }
PetscErrorCode PetscViewerBinaryOpen(MPI_Comm,const char*n,PetscFileMode m,PetscViewer*v){ TICK std::unique_ptr<_p_PetscViewer> w(new _p_PetscViewer); w->path=n; w->mode=m; w->binary=true; if(int e=vopen(w.get())) return e; *v=w.release(); g_views.insert(*v); return 0; }
PetscErrorCode PetscViewerFlush(PetscViewer v){ TICK LIVE(v) return 0; }
PetscErrorCode PetscViewerDestroy(PetscViewer*v){ if(!*v) return 0; TICK LIVE(*v) g_views.erase(*v); delete *v; *v=nullptr; return 0; }
PetscErrorCode MatView(Mat A,PetscViewer v){ TICK LIVE(A) LIVE(v) if(int e=writable(v,"MatView")) return e; if(!A->assembled||A->dirty){ misuse("a matrix is written before its assembly"); return 73; } Snap s; s.vec=false; s.m=*A; g_files[v->path].push_back(s); return 0; }
PetscErrorCode VecView(Vec x,PetscViewer v){ TICK LIVE(x) LIVE(v) if(int e=writable(v,"VecView")) return e; if(!x->assembled||x->dirty){ misuse("a vector is written before its assembly"); return 73; } Snap s; s.vec=true; s.v=*x; g_files[v->path].push_back(s); return 0; }
}
static void fresh(){ reset(); for(auto v:g_views) delete v; g_views.clear(); g_files.clear(); g_order.clear(); g_init=g_fin=0; g_opt.clear(); }
static std::string slurp(const std::string&f){ std::ifstream i(f,std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static bool exists(const std::string&f){ struct stat st; return stat(f.c_str(),&st)==0; }
struct Dirs { std::vector<std::string> d,f; ~Dirs(){ for(auto&x:f) unlink(x.c_str()); for(size_t k=d.size();k-->0;) rmdir(d[k].c_str()); } };
// a name of a file whose whole path has the given length (or a little more if that is too short), in directories made for it
static std::string mkname(Rng&g,Dirs&D,int len,int tag){ std::string p=scratch(); static const char ok[]="abcdefghijklmnopqrstuvwxyzABCXYZ0123456789._-+ %@=,"; auto word=[&](int n){ std::string w; for(int i=0;i<n;i++){ char ch=ok[g.below(g.chance(0.1)?(int)sizeof(ok)-1:26)]; w+= i==0&&(ch=='-'||ch==' ')?'q':ch; } if(n>3&&g.chance(0.1)) w.replace(1,2,"%s"); return w; };
	while((int)p.size()+240<len){ int left=len-(int)p.size()-1; int n=std::min(200,std::max(10,left-120)); p+="/d"+fmt("%d",tag)+word(n-2); if(mkdir(p.c_str(),0700)==0) D.d.push_back(p); }
	std::string base=fmt("m%d",tag); int rest=len-(int)p.size()-1-(int)base.size(); if(rest>0) base+=word(rest); p+="/"+base; return p; }
struct Args { std::vector<std::unique_ptr<char[]>> s; std::vector<char*> v; void add(const std::string&t){ s.emplace_back(new char[t.size()+1]); memcpy(s.back().get(),t.c_str(),t.size()+1); v.push_back(s.back().get()); } };
static int runmain(const std::vector<std::string>&a,bool&threw){ std::unique_ptr<Args> A(new Args); for(auto&x:a) A->add(x); int n=(int)A->v.size(); std::unique_ptr<char*[]> av(new char*[n+1]); for(int i=0;i<n;i++) av[i]=A->v[i]; av[n]=nullptr; threw=false; Quiet q; try{ return hx_conv_main(n,av.get()); }catch(const std::exception&){ threw=true; return 1; } }
static int len_(Rng&g){ switch(g.below(6)){ case 0: return 0; case 1: return 60+g.below(200); case 2: return 480+g.below(40); case 3: return 490+g.below(12); case 4: return 4070+g.below(21); default: return 200+g.below(3800); } }
static void fam_conv(Case&c){
	Rng&g=c.rng; fresh(); int bs=g.pick<int>({0,1,3,4,7}),eff=std::max(bs,1),nb=1+g.below(c.big?300:8); Coo co; { Hubs hb(g,c.big,nb,nb); co=blocky(g,eff,nb,nb,c.big?4.0/nb:g.pick<double>({0.1,0.3,0.8})); } int n=co.nr; std::vector<double> b(n),x(n); for(auto&q:b) q=rv(g,false); for(auto&q:x) q=rv(g,false); bool sol=g.chance(0.6);
	Dirs D; bool lng=g.chance(0.5); std::string mt=mtx(g,co,false),bt=vectext(g,b),xt=vectext(g,x); auto file=[&](int tag,const std::string&t){ std::string f=mkname(g,D,lng||g.chance(0.3)?len_(g):0,tag); std::ofstream o(f,std::ios::binary|std::ios::trunc); o<<t; o.close(); REQUIRE(exists(f),"harness: cannot make a file with a name of %zu characters",f.size()); D.f.push_back(f); D.f.push_back(f+".pmat"); return f; };
	std::string fm=file(1,mt),fb=file(2,bt),fx=sol?file(3,xt):""; std::vector<std::string> a={"util_petsc_io",fm,fb}; std::vector<std::vector<std::string>> o; if(sol) o.push_back({"-exact_soln",fx}); if(bs) o.push_back({"-mat_block_size",fmt("%d",bs)}); if(g.chance(0.4)) o.push_back({"-mat_type",g.pick<std::string>({"aij","baij"})}); if(g.chance(0.3)) o.push_back({"-log_view"}); for(size_t k=o.size();k>1;k--) std::swap(o[k-1],o[g.below((int)k)]); for(auto&q:o) for(auto&r:q) a.push_back(r);
	c.note(fmt("%d rows, bs %d, %s, names of %zu, %zu and %zu characters",n,bs,sol?"with solution":"no solution",fm.size(),fb.size(),fx.size())); c.sig=hstr(mt+bt+xt+fm);
	std::set<std::string> want={fm+".pmat",fb+".pmat"}; if(sol) want.insert(fx+".pmat"); int ncall=0;
	auto clean=[&]{ for(auto&w:want) unlink(w.c_str()); }; auto intact=[&]{ REQUIRE(slurp(fm)==mt&&slurp(fb)==bt&&(!sol||slurp(fx)==xt),"an input file was modified"); };
	auto content=[&]{ std::set<std::string> got; for(auto&p:g_files) got.insert(p.first); for(auto&p:got) REQUIRE(want.count(p),"a file was written that belongs to no input: %s",p.c_str()); for(auto&w:want){ REQUIRE(got.count(w),"nothing was written to %s",w.c_str()); REQUIRE(exists(w),"no file %s",w.c_str()); auto&q=g_files[w]; REQUIRE(q.size()==1,"%zu objects were written to %s",q.size(),w.c_str()); auto cv=[&](const std::vector<double>&v){ REQUIRE(q[0].vec&&q[0].v.n==n,"%s does not hold a vector of %d",w.c_str(),n); for(int i=0;i<n;i++) REQUIRE(q[0].v.x[i]==v[i],"component %d written to %s is %.17g, the file has %.17g",i,w.c_str(),q[0].v.x[i],v[i]); };
			if(w==fb+".pmat") cv(b); else if(w!=fm+".pmat") cv(x); else { REQUIRE(!q[0].vec,"%s does not hold a matrix",w.c_str()); g_mats.insert(&q[0].m); struct Un{ Mat m; ~Un(){ g_mats.erase(m); } } un{&q[0].m}; cmpmat(&q[0].m,co); } } count("files_compared",want.size()); };
	leakcheck("the conversion",[&]{ fresh(); clean(); bool threw; int rc=runmain(a,threw); nomisuse(); REQUIRE(!threw,"an exception escaped"); REQUIRE(rc==0,"exit status %d although every call succeeded",rc); content(); REQUIRE(g_views.empty(),"%zu files were not closed",g_views.size()); REQUIRE(g_mats.empty()&&g_vecs.empty(),"%zu matrices and %zu vectors were not destroyed",g_mats.size(),g_vecs.size()); REQUIRE(g_init==1&&g_fin==1,"PETSc initialised %d and finalised %d times",g_init,g_fin); intact(); ncall=g_ncall; fresh(); }); count(sol?"converted_with_solution":"converted");
	// every call of PETSc fails once: nothing but the release of what is no longer needed may fail without a word
	for(int k=1;k<=ncall;k++){ if(ncall>30&&!g.chance(30.0/ncall)) continue; fresh(); clean(); g_failat=k; g_failcode=g.pick<int>({55,63,73,1}); bool threw; int rc=runmain(a,threw); std::string f=g_failed; bool rel= f=="MatDestroy"||f=="VecDestroy"||f=="PetscFinalize"; if(rc==0&&!threw){ REQUIRE(rel,"success is reported although call %d of %d, %s, failed with error %d",k,ncall,f.c_str(),g_failcode); g_failat=0; content(); } else count("failures_surfaced"); intact(); }
	fresh(); clean();
	// inputs that cannot be used: no success, and no output where the input was refused
	if(g.chance(0.5)){ int kind=g.below(4); std::vector<std::string> a2=a; std::string bad=scratch()+"/none.mtx",badt; unlink(bad.c_str()); if(kind==1){ badt="not a matrix\n"; std::ofstream(bad)<<badt; } if(kind==2){ std::vector<double> y(n+1+g.below(4),1.0); badt=vectext(g,y); std::ofstream(bad)<<badt; }
		int at= kind==2? 2 : 1+g.below(2); if(kind==3){ a2.resize(1+g.below(2)); } else a2[at]=bad; if(kind==2&&sol&&g.chance(0.5)){ a2=a; for(size_t i=3;i+1<a2.size();i++) if(a2[i]=="-exact_soln") a2[i+1]=bad; }
		fflush(stdout); pid_t pid=fork(); if(pid==0){ for(int q=0;q<3;q++) if(q!=2) close(q); int dn=open("/dev/null",O_RDWR); dup2(dn,1); int er=dup(2); (void)er; if(kind!=2) dup2(dn,2); bool threw; int rc=runmain(a2,threw); _exit(rc||threw?1:0); }
		int st; waitpid(pid,&st,0); bool okexit=WIFEXITED(st)&&WEXITSTATUS(st)==0; if(kind!=3) REQUIRE(!okexit,"success is reported for %s",kind==0?"a missing file":kind==1?"a file that is no matrix":"a vector of another size"); bool out=exists(bad+".pmat"); if(out) unlink((bad+".pmat").c_str()); REQUIRE(!out,"output was written for an input that cannot be used"); if(kind==3) for(auto&w:want) REQUIRE(!exists(w),"output was written without arguments"); intact(); clean(); unlink(bad.c_str()); count("refusals"); }
	fresh(); }
int main(int argc,char**argv){ return run(argc,argv,{{"conv",fam_conv,60,600},{"convL",large(fam_conv),10,80}}); }
