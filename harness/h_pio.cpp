// P28 matrices, vectors and options on their way from files and the command line to PETSc, driven by a stand-in for PETSc
#include "piomock.hpp"
#include "utils/cmdoptions.cpp"
typedef PetscErrorCode(*Reader)(const char*,MPI_Comm,Mat*);
static void fam_mat(Case&c){
	Rng&g=c.rng; reset(); bool sr=g.chance(0.6); Reader rd=sr?readMatFromCOOFile_viaSR:readMatFromCOOFile; g_opt.clear(); int bs=g.pick<int>({0,1,3,4,7,2,5}); int mx=!c.big?10:bs<=1?3000:500, nb=1+g.below(mx), mb= g.chance(0.7)||(sr&&(bs==3||bs==4||bs==7))?nb:1+g.below(mx); int eff=std::max(bs,1); if(g.chance(0.1)) nb=mb=1;
	Coo co; { Hubs hb(g,c.big,nb,mb); co=blocky(g,eff,nb,mb,c.big?4.0/mb:g.pick<double>({0.1,0.3,0.8})); } if(bs) g_opt["-mat_block_size"]=fmt("%d",bs); if(g.chance(0.6)) g_opt["-mat_type"]=g.pick<std::string>({"aij","baij","mpiaij"}); std::string t=mtx(g,co,false),f=put(t); c.note(fmt("%s %d x %d blocks of %d, %zu entries",sr?"viaSR":"plain",nb,mb,bs,co.e.size())); c.sig=hstr(t); MPI_Comm comm=g.pick<int>({PETSC_COMM_SELF,PETSC_COMM_WORLD});
	int ncall=0; leakcheck("reading into PETSc",[&]{ reset(); Mat A=nullptr; int err; { Quiet q; err=rd(f.c_str(),comm,&A); } nomisuse(); REQUIRE(err==0,"error %d",err); cmpmat(A,co); REQUIRE(g_mats.size()==1,"%zu matrices exist after reading one",g_mats.size()); if(bs>1&&(!sr||bs==3||bs==4||bs==7)) REQUIRE(A->bs==bs,"the matrix has blocks of %d, %d were asked for",A->bs,bs); ncall=g_ncall; reset(); });
	count(sr?"read_viaSR":"read_plain");
	// every call of PETSc fails once
	for(int k=1;k<=ncall;k++){ int few=c.big?8:40; if(ncall>few&&!g.chance((double)few/ncall)) continue; reset(); g_failat=k; g_failcode=g.pick<int>({55,63,73,1}); Mat A=nullptr; int err; { Quiet q; err=rd(f.c_str(),comm,&A); } REQUIRE(err!=0,"success is reported although call %d of %d, %s, failed with error %d",k,ncall,g_failed.c_str(),g_failcode); count("failures_surfaced"); } reset();
	if(sr&&g.chance(0.2)){ g_mpisize=g.range(2,5); g_mpirank=g.below(g_mpisize); Mat A=nullptr; bool threw=false; int err=0; { Quiet q; try{ err=rd(f.c_str(),comm,&A); }catch(const std::exception&){ threw=true; } } REQUIRE(threw||err,"accepted on %d processes",g_mpisize); reset(); count("refusals"); } }
static void fam_vec(Case&c){
	Rng&g=c.rng; reset(); g_opt.clear(); int n=1+g.below(c.big?9000:40); std::vector<double> v(n); for(auto&x:v) x=rv(g,false); std::string t=vectext(g,v); std::string f=put(t); bool withmat=g.chance(0.5); int nc=g.chance(0.5)?n:1+g.below(60); MPI_Comm comm=g.pick<int>({PETSC_COMM_SELF,PETSC_COMM_WORLD}); c.note(fmt("vector of %d%s",n,withmat?fmt(" for a matrix of %d x %d",n,nc).c_str():"")); c.sig=hstr(t);
	auto mk=[&]()->Mat{ if(!withmat) return nullptr; Mat A=new _p_Mat; g_mats.insert(A); A->m=n; A->n=nc; A->up=A->assembled=true; A->comm=comm; return A; }; int ncall=0;
	leakcheck("reading into PETSc",[&]{ reset(); Mat A=mk(); Vec x=nullptr; int err; { Quiet q; err=readVecFromFile(f.c_str(),comm,A,&x); } nomisuse(); REQUIRE(err==0,"error %d",err); REQUIRE(g_vecs.count(x)&&g_vecs.size()==1,"%zu vectors exist after reading one",g_vecs.size()); REQUIRE(x->assembled&&!x->begun&&!x->dirty,"the vector is not assembled"); REQUIRE(x->n==n,"%d components, the file has %d",x->n,n); for(int i=0;i<n;i++) REQUIRE(x->set[i]&&x->x[i]==v[i],"component %d is %.17g, the file has %.17g",i,x->x[i],v[i]); count("components_compared",n); ncall=g_ncall; reset(); });
	for(int k=1;k<=ncall;k++){ reset(); Mat A=mk(); g_failat=k; g_failcode=g.pick<int>({55,63,73,1}); Vec x=nullptr; int err; { Quiet q; err=readVecFromFile(f.c_str(),comm,A,&x); } REQUIRE(err!=0,"success is reported although call %d of %d, %s, failed",k,ncall,g_failed.c_str()); count("failures_surfaced"); } reset();
	if(withmat&&n>1){ Mat A=mk(); A->m=1+g.below(n-1); Vec x=nullptr; int err=0; bool threw=false; { Quiet q; try{ err=readVecFromFile(f.c_str(),comm,A,&x); }catch(const std::exception&){ threw=true; } } REQUIRE(threw||err,"%d values were accepted for a matrix of %d rows",n,A->m); reset(); count("refusals"); } }
// reads of the options data base
template<class F> static std::string outcome(F f){ try{ f(); return "ok"; }catch(const InputNotGivenError&e){ return "notgiven "+std::string(e.what()); }catch(const Petsc_exception&e){ return "petsc "+std::string(e.what()); }catch(const std::exception&e){ return "other "+std::string(e.what()); } }
static void fam_opts(Case&c){
	Rng&g=c.rng; reset(); g_opt.clear(); static const char*names[]={"-a","-alpha","-b","-matrix_file","-sweeps","-s"}; std::string log; for(const char*n:names) if(g.chance(0.6)) g_opt[n]=""; c.note("options"); c.sig=g.next();
	for(int k=0;k<12;k++){ std::string nm=names[g.below(6)]; bool set=g_opt.count(nm)>0; int kind=g.below(7); bool fail=g.chance(0.15); int code=55+g.below(45); g_ncall=0; g_failat=fail?1:0; g_failcode=code; g_notext=fail&&g.chance(0.15); g_msgfails=fail&&g.chance(0.15); Quiet q; std::string r; const char*what="";
		auto judge=[&](bool required){ if(fail){ bool other=g_notext||g_msgfails; REQUIRE(other? r.compare(0,6,"other ")==0||r.compare(0,6,"petsc ")==0 : r.compare(0,6,"petsc ")==0,"%s of %s: PETSc fails with error %d, outcome: %s",what,nm.c_str(),code,r.c_str()); if(!other){ REQUIRE(r.find(TEXT[code%4])!=std::string::npos,"the text '%s' of the error is missing in: %s",TEXT[code%4],r.c_str()); if(code%3) REQUIRE(r.find(fmt("specific %d",code))!=std::string::npos,"the specific text of the error is missing in: %s",r.c_str()); } count("errors"); return false; }
			if(!set&&required){ REQUIRE(r.compare(0,9,"notgiven ")==0,"%s of %s, which is not set: %s",what,nm.c_str(),r.c_str()); REQUIRE(r.find(nm)!=std::string::npos,"the option is not named in: %s",r.c_str()); count("missing_options"); return false; } REQUIRE(r=="ok","%s of %s, which is%s set: %s",what,nm.c_str(),set?"":" not",r.c_str()); count("options_read"); return true; };
		leakcheck("reading an option",[&]{ g_ncall=0; r.clear(); Rng g2=g; switch(kind){
		case 0: { what="presence"; bool v=!set; r=outcome([&]{ v=parsePetscCmd_isDefined(nm); }); if(judge(false)) REQUIRE(v==set,"%s is%s set, reported otherwise",nm.c_str(),set?"":" not"); break; }
		case 1: { what="integer"; int w=g2.range(-2000000,2000000),v=0; if(set) g_opt[nm]=fmt("%d",w); r=outcome([&]{ v=parsePetscCmd_int(nm); }); if(judge(true)) REQUIRE(v==w,"%s is %d, given as %d",nm.c_str(),v,w); break; }
		case 2: { what="real"; double w=rv(g2,false),d=g2.sym(),v=0; if(set) g_opt[nm]=fmt("%.17g",w); r=outcome([&]{ v=parseOptionalPetscCmd_real(nm,d); }); if(judge(false)) REQUIRE(v==(set?w:d),"%s is %.17g, expected %.17g",nm.c_str(),v,set?w:d); break; }
		case 3: { what="boolean"; bool w=g2.chance(0.5),v=!w; if(set) g_opt[nm]=w?g2.pick<std::string>({"","1","true","yes"}):g2.pick<std::string>({"0","false","no"}); r=outcome([&]{ v=parsePetscCmd_bool(nm); }); if(judge(true)) REQUIRE(v==w,"%s is %d, given as %s",nm.c_str(),v,g_opt[nm].c_str()); break; }
		case 4: { what="string"; int len=1+g2.below(60); std::string w,v; int k=g2.chance(0.3)?len:g2.below(len+1); for(int i=0;i<k;i++) w+=(char)('a'+g2.below(26)); if(set) g_opt[nm]=w; r=outcome([&]{ v=parsePetscCmd_string(nm,len); }); if(judge(true)) REQUIRE(v==w,"%s is '%s', given as '%s' with at most %d characters",nm.c_str(),v.c_str(),w.c_str(),len); break; }
		default: { bool optional=kind==6; what=optional?"optional array":"array"; int mx=1+g2.below(12); std::vector<int> w(g2.chance(0.2)?mx:1+g2.below(mx)),v; std::string s; for(auto&x:w){ x=g2.range(-999,999); s+=(s.empty()?"":",")+fmt("%d",x); } if(set) g_opt[nm]=s; r=outcome([&]{ v=optional?parseOptionalPetscCmd_intArray(nm,mx):parsePetscCmd_intArray(nm,mx); }); if(judge(!optional)){ if(!set) w.clear(); REQUIRE(v==w,"%s has %zu entries, given were %zu%s",nm.c_str(),v.size(),w.size(),v.size()==w.size()?", but others":""); } break; } } }); g.next(); }
	// error codes outside the range of PETSc
	{ int bad=g.pick<int>({0,1,PETSC_ERR_MIN_VALUE,PETSC_ERR_MAX_VALUE,-3,100000}); g_failat=0; g_notext=g_msgfails=false; std::string r=outcome([&]{ parsePetscErrorCode(bad); }); REQUIRE(r!="ok","error code %d was accepted",bad); int ok=PETSC_ERR_MIN_VALUE+1+g.below(PETSC_ERR_MAX_VALUE-PETSC_ERR_MIN_VALUE-1); std::string m=parsePetscErrorCode(ok); REQUIRE(m.find(TEXT[ok%4])!=std::string::npos,"text of error %d is %s",ok,m.c_str()); r=outcome([&]{ petsc_throw(0); }); REQUIRE(r=="ok","code 0 throws"); r=outcome([&]{ petsc_throw(ok); }); REQUIRE(r.compare(0,6,"petsc ")==0,"error %d: %s",ok,r.c_str()); }
	reset(); }
int main(int argc,char**argv){ return run(argc,argv,{{"mat",fam_mat,250,2500},{"vec",fam_vec,150,1500},{"opts",fam_opts,200,2000},{"matL",large(fam_mat),12,100},{"vecL",large(fam_vec),12,100}}); }
