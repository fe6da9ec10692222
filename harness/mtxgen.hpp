// random matrices in coordinate form and random Matrix Market files
#ifndef MTXGEN_HPP
#define MTXGEN_HPP
#include "lib.hpp"
#include <fstream>
using namespace hx;
struct E3 { int i,j; double v; };
struct Coo { int nr,nc; std::vector<E3> e; };
static std::string num(Rng&g,double v,bool integer){
	if(integer) return fmt(g.chance(0.2)&&v>=0?"+%d":"%d",(int)v);
	switch(g.below(8)){ case 0: return fmt("%.17g",v); case 1: return fmt("%.17e",v); case 2: return fmt("%.17E",v); case 3: { std::string s=fmt("%.17g",v); return v>=0?"+"+s:s; } case 4: { std::string s=fmt("%.20f",v); if(strtod(s.c_str(),0)!=v) s=fmt("%.17g",v); size_t z=s.find("0."); if(z==0) s=s.substr(1); return s; } case 5: { if(v==(int)v) return fmt("%d.",(int)v); return fmt("%.17g",v); } case 6: if(v==(int)v) return fmt("%d",(int)v); return fmt("%.17g",v); default: return fmt("%.19e",v); } }
static double rv(Rng&g,bool integer){ if(integer) return g.range(-50,50); switch(g.below(5)){ case 0: return g.sym(); case 1: return g.range(-9,9); case 2: return std::ldexp(g.sym(),g.range(-200,200)); case 3: return 0.0; default: return std::ldexp(g.sym(),g.range(-20,20)); } }
static std::string pad(Rng&g){ switch(g.below(6)){ case 0: return "  "; case 1: return "\t"; case 2: return " \t "; default: return " "; } }
// ascending columns of row i: every column with probability d, the diagonal at least with probability pd
static int g_hubrow=-1,g_hubcol=-1; static double g_hubd=1; // a row and a column with many entries
struct Hubs { Hubs(Rng&g,bool on,int nr,int nc){ if(!on) return; if(g.chance(0.35)) g_hubrow=g.below(nr); if(g.chance(0.35)) g_hubcol=g.below(nc); g_hubd=g.pick<double>({0.3,0.9,1}); } ~Hubs(){ g_hubrow=g_hubcol=-1; } };
static std::vector<int> rowcols(Rng&g,int nc,int i,double d,double pd){ std::set<int> s; if(i==g_hubrow){ for(int j=0;j<nc;j++) if(g.chance(g_hubd)) s.insert(j); } if(g_hubcol>=0&&g_hubcol<nc&&g.chance(g_hubd)) s.insert(g_hubcol);
	if(nc<20000){ for(int j=0;j<nc;j++) if(g.chance(d)||(j==i&&g.chance(pd))) s.insert(j); } else { int k=g.below((int)(2*d*nc)+2); while(k-->0) s.insert(g.below(nc)); if(i<nc&&g.chance(pd)) s.insert(i); } return std::vector<int>(s.begin(),s.end()); }
// any line that begins with a percent sign is a comment, however long
static std::string comment(Rng&g){ std::string s="%"; int k=g.below(8); if(k==0) return s; if(k<=2) return s+"% 3 3 3 comment"; if(k<=4) return s+" %%MatrixMarket matrix array"; if(k==5){ int n=g.pick<int>({200,300,600,1100,1500,2100,4200,9000})+g.below(90); bool dig=g.chance(0.7); for(int i=0;i<n;i++) s+=dig?(g.chance(0.3)?' ':(char)('1'+g.below(9))):(char)(32+g.below(95)); return s; } if(k==6) return s+"1 1 1.0"; return s+"\t comment % 1 2"; }
static Coo gencoo(Rng&g,int nr,int nc,double dens,bool integer){ Coo c; c.nr=nr;c.nc=nc; for(int i=0;i<nr;i++){ int cnt=0; for(int j:rowcols(g,nc,i,dens,0.8)){ c.e.push_back({i,j,rv(g,integer)}); cnt++; } if(!cnt) c.e.push_back({i,g.below(nc),rv(g,integer)}); } return c; }
static std::string mtx(Rng&g,const Coo&c,bool integer,std::vector<E3>*order=nullptr){
	std::vector<E3> e=c.e; int ord=g.below(4); if(ord!=0) for(size_t k=e.size();k>1;k--) std::swap(e[k-1],e[g.below((int)k)]); if(ord==2) std::stable_sort(e.begin(),e.end(),[](const E3&a,const E3&b){return a.j<b.j;}); if(ord==3) std::stable_sort(e.begin(),e.end(),[](const E3&a,const E3&b){return a.i>b.i;});
	std::string nl=g.chance(0.15)?"\r\n":"\n"; std::string s=std::string("%%MatrixMarket")+pad(g)+"matrix"+pad(g)+"coordinate"+pad(g)+(integer?"integer":"real")+pad(g)+"general"+(g.chance(0.1)?"  ":"")+nl;
	for(int k=g.below(4);k>0;k--) s+=comment(g)+nl;
	s+=(g.chance(0.2)?" ":"")+fmt("%d",c.nr)+pad(g)+fmt("%d",c.nc)+pad(g)+fmt("%zu",e.size())+(g.chance(0.2)?" ":"")+nl;
	for(size_t k=0;k<e.size();k++){ if(g.chance(0.05)) s+=nl; s+=(g.chance(0.1)?pad(g):std::string(""))+fmt("%d",e[k].i+1)+pad(g)+fmt("%d",e[k].j+1)+pad(g)+num(g,e[k].v,integer)+(g.chance(0.1)?" ":""); if(k+1<e.size()||g.chance(0.8)) s+=nl; }
	if(g.chance(0.1)) s+=nl+nl; if(order) *order=e; return s; }
static std::string put(const std::string&text){ static int k=0; std::string f=scratch()+fmt("/f%d.mtx",k++%4); std::ofstream o(f,std::ios::binary|std::ios::trunc); o<<text; o.close(); return f; }
#endif
