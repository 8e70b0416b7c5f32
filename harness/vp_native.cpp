// Native implementation of the harness interface: replays one assignment of inputs.
// VP_INPUT: text file "r name value" / "c name int". Results on stdout, one per line.
#include "vp.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <fstream>
#include <iterator>
#include <ostream>
#include <string>
#include <vector>
static std::map<std::string,double> R; static std::map<std::string,int> Cc; static bool loaded=false; static int fails=0;
static void load(){ if(loaded) return; loaded=true; setvbuf(stdout,nullptr,_IOLBF,0); const char*f=getenv("VP_INPUT"); if(!f) return; FILE*h=fopen(f,"r"); if(!h) return; char k[8],n[256],v[256]; while(fscanf(h,"%7s %255s %255s",k,n,v)==3){ if(k[0]=='r') R[n]=strtod(v,nullptr); else Cc[n]=atoi(v); } fclose(h); }
static void fin(){ fflush(stdout); }
extern "C" {
double vp_real(const char*n,double lo,double hi){ load(); auto it=R.find(n); double v; if(it==R.end()){ v=(lo<=0&&hi>=0)?0:(lo+hi)/2; printf("\nVP missing %s\n",n);} else v=it->second; if(v<lo) v=lo; if(v>hi) v=hi; return v; }
int vp_choice(const char*n,int k){ load(); auto it=Cc.find(n); int v=it==Cc.end()?0:it->second; return v<k?v:k-1; }
void vp_assume(bool c){ if(!c){ printf("\nVP assume-failed\n"); fin(); _Exit(4); } }
void vp_assert(bool c,const char*l){ if(!c){ printf("\nVP FAIL %s\n",l); fails++; fin(); } else { printf("\nVP ok %s\n",l);} }
void vp_assert_eq(double a,double b,double t,const char*l){ bool ok=std::fabs(a-b)<=t*0.5||a==b; if(!ok){ printf("\nVP FAIL %s %.17g vs %.17g\n",l,a,b); fails++; fin(); } else printf("\nVP ok %s\n",l); }
void vp_assert_le(double a,double b,double t,const char*l){ bool ok=a<=b+t*0.5; if(!ok){ printf("\nVP FAIL %s %.17g > %.17g\n",l,a,b); fails++; fin(); } else printf("\nVP ok %s\n",l); }
void vp_reach(const char*l){ printf("\nVP reach %s\n",l); }
void vp_observe(const char*n,double v){ printf("\nVP obs %s %.17g\n",n,v); }
int vp_tier(){ const char*e=getenv("VP_TIER"); return e&&!strcmp(e,"thorough"); }
int vp_symbolic(){ return 0; }
double vp_fresh(const char*){ return 0; }
int vp_same(double a,double b){ return a==b; }
int vp_finite(double a){ return std::isfinite(a); }
double vp_name(double a){ return a; }
void vp_thread_order(int,int){}
void vp_trace(const char*n,double v){ printf("\nVP trace %s %.17g\n",n,v); }
void vp_havoc_loops(int){}
void vp_end(){ printf("\nVP end\n"); fin(); exit(fails?3:0); }
void vp_wrote(void*s,int id){ *reinterpret_cast<std::ostream*>(s)<<id<<"\n"; }
static std::vector<double> nums(const char*f,bool&ok){ std::vector<double> r; std::ifstream in(f); ok=(bool)in; std::string t((std::istreambuf_iterator<char>(in)),std::istreambuf_iterator<char>()); for(char&c:t) if(c==',') c=' '; const char*p=t.c_str(); char*e; for(;;){ double d=strtod(p,&e); if(e==p) break; r.push_back(d); p=e; } return r; }
int vp_file_count(const char*f){ bool ok; auto v=nums(f,ok); return ok?(int)v.size():-1; }
double vp_file_value(const char*f,int i){ bool ok; auto v=nums(f,ok); return i<(int)v.size()? v[i]: NAN; }
void VP_ENTRY();
}
int main(){ load(); VP_ENTRY(); printf("\nVP end\n"); fin(); return fails?3:0; }
