#include "term.h"
#include <z3++.h>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <fstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

PathCond g_pc; SolverStats g_ss; double g_branchBudget=3, g_assertBudget=20; std::string g_dumpDir; bool g_cross=false;
static double nowS(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }

CondP cTrue(){ static CondP c=std::make_shared<Cond>(Cond{C_TRUE,R_EQ,nullptr,{}}); return c; }
CondP cFalse(){ static CondP c=std::make_shared<Cond>(Cond{C_FALSE,R_EQ,nullptr,{}}); return c; }
CondP cRel(Rel r,const Poly&p0){ mpq_class c; if(pIsConst(p0,&c)){ bool t= r==R_EQ?c==0: r==R_NE?c!=0: r==R_LT?c<0: c<=0; return t?cTrue():cFalse(); }
  Poly p=p0; mpq_class lc=p->t.back().second; if(r==R_EQ||r==R_NE) p=pScale(p,1/lc); else { if(lc<0) lc=-lc; p=pScale(p,1/lc);} 
  return std::make_shared<Cond>(Cond{C_REL,r,p,{}}); }
CondP cNot(const CondP&c){ switch(c->k){ case C_TRUE:return cFalse(); case C_FALSE:return cTrue();
  case C_REL: switch(c->r){ case R_EQ:return cRel(R_NE,c->p); case R_NE:return cRel(R_EQ,c->p); case R_LT:return cRel(R_LE,pNeg(c->p)); case R_LE:return cRel(R_LT,pNeg(c->p)); }
  case C_AND:{ CondP r=cFalse(); for(auto&x:c->c) r=cOr(r,cNot(x)); return r; }
  case C_OR:{ CondP r=cTrue(); for(auto&x:c->c) r=cAnd(r,cNot(x)); return r; } } return cTrue(); }
CondP cAnd(const CondP&a,const CondP&b){ if(a->k==C_FALSE||b->k==C_FALSE) return cFalse(); if(a->k==C_TRUE) return b; if(b->k==C_TRUE) return a; if(a==b) return a;
  auto r=std::make_shared<Cond>(Cond{C_AND,R_EQ,nullptr,{}}); if(a->k==C_AND) r->c=a->c; else r->c.push_back(a); if(b->k==C_AND) r->c.insert(r->c.end(),b->c.begin(),b->c.end()); else r->c.push_back(b); return r; }
CondP cOr(const CondP&a,const CondP&b){ if(a->k==C_TRUE||b->k==C_TRUE) return cTrue(); if(a->k==C_FALSE) return b; if(b->k==C_FALSE) return a; if(a==b) return a;
  auto r=std::make_shared<Cond>(Cond{C_OR,R_EQ,nullptr,{}}); if(a->k==C_OR) r->c=a->c; else r->c.push_back(a); if(b->k==C_OR) r->c.insert(r->c.end(),b->c.begin(),b->c.end()); else r->c.push_back(b); return r; }
std::string cStr(const CondP&c){ switch(c->k){case C_TRUE:return "true";case C_FALSE:return "false";case C_REL:{ static const char*n[]={"==","!=","<","<="}; return "("+pStr(c->p)+" "+n[c->r]+" 0)"; } default:{ std::string s="("; for(size_t i=0;i<c->c.size();i++){ if(i) s+=c->k==C_AND?" & ":" | "; s+=cStr(c->c[i]);} return s+")"; }} }
void cAtoms(const CondP&c,std::unordered_set<Atom>&s){ if(c->k==C_REL) pAtoms(c->p,s); for(auto&x:c->c) cAtoms(x,s); }

// ---------- facts on linear shifts: P = s*(L) + k ----------
struct Fact { Poly L; Iv iv; std::vector<mpq_class> ne; };
static std::unordered_map<size_t,std::vector<Fact>> g_facts;
static bool split(const Poly&p,mpq_class&s,Poly&L,mpq_class&k){ // false if constant
  k=0; auto t=p->t; if(!t.empty()&&t[0].first==0){ k=t[0].second; } Poly q= k==0?p:pSub(p,pConst(k)); if(q->t.empty()) return false; s=q->t.back().second; L=pScale(q,1/s); return true; }
static Fact*findFact(const Poly&L,bool create){ auto&v=g_facts[L->hash]; for(auto&f:v) if(pEq(f.L,L)) return &f; if(!create) return nullptr; v.push_back(Fact{L,Iv(),{}}); return &v.back(); }
static void meetLo(Iv&a,const mpq_class&v,bool s){ if(!a.hl||v>a.lo||(v==a.lo&&s&&!a.ls)){ a.hl=true;a.lo=v;a.ls=s; } }
static void meetHi(Iv&a,const mpq_class&v,bool s){ if(!a.hh||v<a.hi||(v==a.hi&&s&&!a.hs)){ a.hh=true;a.hi=v;a.hs=s; } }
static void meet(Iv&a,const Iv&b){ if(b.hl) meetLo(a,b.lo,b.ls); if(b.hh) meetHi(a,b.hi,b.hs); }
static void learn(const CondP&c){ if(c->k==C_AND){ for(auto&x:c->c) learn(x); return; } if(c->k!=C_REL) return;
  mpq_class s,k; Poly L; if(!split(c->p,s,L,k)) return; Fact*f=findFact(L,true); mpq_class b=-k/s; // s*L+k REL 0
  switch(c->r){ case R_EQ: meetLo(f->iv,b,false); meetHi(f->iv,b,false); break; case R_NE: f->ne.push_back(b); break;
    case R_LT: case R_LE: { bool st=c->r==R_LT; if(s>0) meetHi(f->iv,b,st); else meetLo(f->iv,b,st); } } }
static Iv ivAdd(const Iv&a,const Iv&b){ Iv r; if(a.hl&&b.hl){ r.hl=true; r.lo=a.lo+b.lo; r.ls=a.ls||b.ls; } if(a.hh&&b.hh){ r.hh=true; r.hi=a.hi+b.hi; r.hs=a.hs||b.hs; } return r; }
static Iv ivScale(const Iv&a,const mpq_class&c){ Iv r; if(c==0){ r.hl=r.hh=true; r.lo=r.hi=0; return r; } if(c>0){ r=a; r.lo*=c; r.hi*=c; } else { r.hl=a.hh; r.lo=a.hi*c; r.ls=a.hs; r.hh=a.hl; r.hi=a.lo*c; r.hs=a.ls; } return r; }
static Iv ivMul(const Iv&a,const Iv&b){ Iv r; // full product
  if((a.hl&&a.hh&&a.lo==0&&a.hi==0)||(b.hl&&b.hh&&b.lo==0&&b.hi==0)){ r.hl=r.hh=true; r.lo=r.hi=0; return r; }
  bool an=a.hl&&a.lo>=0, bn=b.hl&&b.lo>=0; bool anp=a.hh&&a.hi<=0,bnp=b.hh&&b.hi<=0;
  if(anp&&!an){ return ivScale(ivMul(ivScale(a,-1),b),-1); } if(bnp&&!bn){ return ivScale(ivMul(a,ivScale(b,-1)),-1); }
  if(an&&bn){ r.hl=true; r.lo=a.lo*b.lo; r.ls=(a.ls&&(b.lo>0||b.ls))||(b.ls&&(a.lo>0||a.ls)); if(r.lo==0) r.ls=(a.lo>0||a.ls)&&(b.lo>0||b.ls); if(a.hh&&b.hh){ r.hh=true; r.hi=a.hi*b.hi; r.hs=false; } return r; }
  if(a.hl&&a.hh&&b.hl&&b.hh){ mpq_class v[4]={a.lo*b.lo,a.lo*b.hi,a.hi*b.lo,a.hi*b.hi}; r.hl=r.hh=true; r.lo=r.hi=v[0]; for(int i=1;i<4;i++){ if(v[i]<r.lo) r.lo=v[i]; if(v[i]>r.hi) r.hi=v[i]; } return r; }
  return r; }
static Iv ivInv(const Iv&a){ Iv r; bool pos=a.hl&&(a.lo>0||(a.lo==0)); bool neg=a.hh&&(a.hi<0||a.hi==0);
  if(pos){ r.hl=true; if(a.hh&&a.hi>0){ r.lo=1/a.hi; r.ls=a.hs; } else { r.lo=0; r.ls=true; } if(a.lo>0){ r.hh=true; r.hi=1/a.lo; r.hs=a.ls; } return r; }
  if(neg){ return ivScale(ivInv(ivScale(a,-1)),-1); } return r; }
static int depthIv=0;
static mpq_class upD(double d){ return mpq_class(std::nextafter(d+std::fabs(d)*1e-13,INFINITY)); }
static mpq_class dnD(double d){ return mpq_class(std::nextafter(d-std::fabs(d)*1e-13,-INFINITY)); }
static void monoFn(Iv&r,const Iv&x,double(*f)(double)){ if(x.hl){ double v=f(x.lo.get_d()); if(std::isfinite(v)) meetLo(r,dnD(v),false);} if(x.hh){ double v=f(x.hi.get_d()); if(std::isfinite(v)) meetHi(r,upD(v),false);} }
Iv atomInterval(Atom a){ AtomInfo&ai=g_atoms[a]; Iv r; if(ai.hasLo){ r.hl=true; r.lo=ai.lo; } if(ai.hasHi){ r.hh=true; r.hi=ai.hi; }
  if(depthIv>6) return r; depthIv++;
  if(ai.kind==A_SQRT){ meetLo(r,0,false); Iv x=pInterval(g_atoms[a].args[0]); if(x.hl&&x.lo>=0){ if(x.lo==0&&x.ls) meetLo(r,0,true); else if(x.lo>0){ meetLo(r,dnD(std::sqrt(x.lo.get_d())),false); } } if(x.hh&&x.hi>=0) meetHi(r,upD(std::sqrt(x.hi.get_d())),false); }
  else if(ai.kind==A_INV){ meet(r,ivInv(pInterval(ai.args[0]))); }
  else if(ai.kind==A_NAMED){ meet(r,pInterval(ai.args[0])); }
  else if(ai.kind==A_FUNC){ const std::string n=ai.name; Poly x0=ai.args[0];
    if(n=="exp"){ meetLo(r,0,true); monoFn(r,pInterval(x0),std::exp); if(r.hl&&r.lo<0) {r.lo=0;r.ls=true;} }
    else if(n=="log"){ Iv x=pInterval(x0); if(x.hl&&x.lo>0) monoFn(r,x,std::log); else if(x.hh){ Iv y=x; y.hl=false; monoFn(r,y,std::log);} }
    else if(n=="sin"||n=="cos"){ meetLo(r,-1,false); meetHi(r,1,false); }
    else if(n=="tanh"){ meetLo(r,-1,true); meetHi(r,1,true); monoFn(r,pInterval(x0),std::tanh); }
    else if(n=="cosh"){ meetLo(r,1,false); }
    else if(n=="sinh"||n=="asinh"){ monoFn(r,pInterval(x0),n=="sinh"?(double(*)(double))std::sinh:(double(*)(double))std::asinh); }
    else if(n=="atan"){ meetLo(r,dnD(-M_PI/2),false); meetHi(r,upD(M_PI/2),false); monoFn(r,pInterval(x0),std::atan); }
    else if(n=="atan2"){ meetLo(r,dnD(-M_PI),false); meetHi(r,upD(M_PI),false); }
    else if(n=="pow"){ Iv x=pInterval(x0); if(x.hl&&x.lo>=0){ meetLo(r,0,x.ls||x.lo>0); } }
    else if(n=="rounderr"){ }
  }
  depthIv--; 
  // facts on the bare atom
  Poly L=pAtom(a); if(Fact*f=findFact(L,false)) meet(r,f->iv);
  return r; }
static Iv ivPow(Iv b,int e){ if(e<0) return ivPow(ivInv(b),-e); Iv r; r.hl=r.hh=true; r.lo=r.hi=1; if(e==0) return r; if(e==1) return b;
  if(e%2==0 && !(b.hl&&b.lo>=0) && !(b.hh&&b.hi<=0)){ Iv q; q.hl=true; q.lo=0; if(b.hl&&b.hh){ mpq_class m=std::max<mpq_class>(abs(b.lo),abs(b.hi)); q.hh=true; q.hi=1; for(int i=0;i<e;i++) q.hi*=m; } return q; }
  for(int i=0;i<e;i++) r=ivMul(r,b); return r; }
Iv pInterval(const Poly&p){ Iv r; mpq_class c; if(pIsConst(p,&c)){ r.hl=r.hh=true; r.lo=r.hi=c; return r; }
  mpq_class s,k; Poly L; Iv fr; bool have=false; if(split(p,s,L,k)){ if(Fact*f=findFact(L,false)){ Iv x=ivScale(f->iv,s); Iv kk; kk.hl=kk.hh=true; kk.lo=kk.hi=k; fr=ivAdd(x,kk); have=true; } }
  if(p->t.size()<=150 && depthIv<=6){ depthIv++; r.hl=r.hh=true; r.lo=r.hi=0; std::unordered_map<Atom,Iv> cache; for(auto&x:p->t){ Iv m; m.hl=m.hh=true; m.lo=m.hi=1; for(auto&f:g_monos[x.first].f){ auto it=cache.find(f.first); if(it==cache.end()) it=cache.emplace(f.first,atomInterval(f.first)).first; m=ivMul(m,ivPow(it->second,f.second)); if(!m.hl&&!m.hh) break; } r=ivAdd(r,ivScale(m,x.second)); if(!r.hl&&!r.hh) break; } depthIv--; }
  if(have) meet(r,fr);
  return r; }
// p is a sum of squares: Gram matrix over the half-monomials of its even terms is positive semidefinite (exact LDL^T)
static bool sosNonneg(const Poly&p){ if(p->t.size()>80) return false; typedef std::vector<std::pair<Atom,int>> MF; std::vector<MF> basis; std::map<MF,int> diag; size_t odd=0;
  for(auto&x:p->t){ bool even=true; MF h; for(auto&f:g_monos[x.first].f){ if(f.second%2){ even=false; break; } h.push_back({f.first,f.second/2}); } if(even){ if(x.second<0) continue; diag[g_monos[x.first].f]=basis.size(); basis.push_back(h); } else odd++; }
  size_t n=basis.size(); if(n==0||n>16||odd>n*(n-1)/2) return false; std::map<MF,std::pair<int,int>> prod; auto mul=[](const MF&a,const MF&b){ std::map<Atom,int> m; for(auto&f:a) m[f.first]+=f.second; for(auto&f:b) m[f.first]+=f.second; MF r; for(auto&f:m) if(f.second) r.push_back(f); return r; };
  for(size_t i=0;i<n;i++) for(size_t j=i+1;j<n;j++) prod.emplace(mul(basis[i],basis[j]),std::make_pair((int)i,(int)j));
  std::vector<std::vector<mpq_class>> G(n,std::vector<mpq_class>(n)); for(auto&x:p->t){ MF f=g_monos[x.first].f; std::sort(f.begin(),f.end()); auto d=diag.find(g_monos[x.first].f); if(d!=diag.end()){ G[d->second][d->second]+=x.second; continue; } auto q=prod.find(f); if(q==prod.end()) return false; mpq_class h=x.second/2; G[q->second.first][q->second.second]+=h; G[q->second.second][q->second.first]+=h; }
  for(size_t i=0;i<n;i++){ if(G[i][i]<0) return false; if(G[i][i]==0){ for(size_t j=i+1;j<n;j++) if(G[i][j]!=0) return false; continue; } for(size_t j=i+1;j<n;j++){ if(G[j][i]==0) continue; mpq_class l=G[j][i]/G[i][i]; for(size_t k=i+1;k<n;k++) G[j][k]-=l*G[i][k]; } } return true; }
int signMask(const Poly&p){ mpq_class c; if(pIsConst(p,&c)) return c<0?1:c==0?2:4;
  Iv r=pInterval(p); int m=7; if(r.hl&&(r.lo>0||(r.lo==0&&r.ls))) m&=4; else if(r.hl&&r.lo==0) m&=6; if(r.hh&&(r.hi<0||(r.hi==0&&r.hs))) m&=1; else if(r.hh&&r.hi==0) m&=3;
  mpq_class s,k; Poly L; if(split(p,s,L,k)) if(Fact*f=findFact(L,false)){ mpq_class b=-k/s; for(auto&x:f->ne) if(x==b) m&=5; }
  // single monomial: combine zero-ness
  if((m&2)&&p->t.size()==1){ bool nz=true; for(auto&f:g_monos[p->t[0].first].f){ if(f.second<0) continue; Poly A=pAtom(f.first); Fact*ft=findFact(A,false); bool z=true; if(ft){ for(auto&x:ft->ne) if(x==0) z=false; } Iv iv=atomInterval(f.first); if(iv.hl&&(iv.lo>0||(iv.lo==0&&iv.ls))) z=false; if(iv.hh&&(iv.hi<0||(iv.hi==0&&iv.hs))) z=false; if(g_atoms[f.first].kind==A_INV) z=false; if(z){nz=false;break;} } if(nz) m&=5; }
  if((m&5)==5&&p->t.size()>1){ if(sosNonneg(p)) m&=6; else if(sosNonneg(pNeg(p))) m&=3; }
  return m; }
int quick(const CondP&c){ switch(c->k){ case C_TRUE:return 1; case C_FALSE:return 0;
  case C_REL:{ int m=signMask(c->p); int want= c->r==R_EQ?2:c->r==R_NE?5:c->r==R_LT?1:3; if(m==0) return -1; if((m&~want)==0) return 1; if((m&want)==0) return 0; return -1; }
  case C_AND:{ bool all=true; for(auto&x:c->c){ int q=quick(x); if(q==0) return 0; if(q<0) all=false; } return all?1:-1; }
  case C_OR:{ bool none=true; for(auto&x:c->c){ int q=quick(x); if(q==1) return 1; if(q<0) none=false; } return none?0:-1; } } return -1; }
void PathCond::add(const CondP&c){ if(c->k==C_TRUE) return; if(c->k==C_AND){ for(auto&x:c->c) add(x); return; } cs.push_back(c); learn(c); }

// ---------- evaluation ----------
static double evalAtom(Atom a,const Model&m,std::map<Atom,double>&memo){ auto it=memo.find(a); if(it!=memo.end()) return it->second; AtomInfo&ai=g_atoms[a]; double r=0; auto arg=[&](int i){ double s=0; for(auto&x:ai.args[i]->t){ double t=mpqToDouble(x.second); for(auto&f:g_monos[x.first].f) t*=std::pow(evalAtom(f.first,m,memo),f.second); s+=t; } return s; };
  if(ai.kind==A_INPUT||ai.kind==A_FRESH){ auto q=m.v.find(a); if(q!=m.v.end()) r=q->second; else if(ai.hasLo) r=mpqToDouble(ai.lo); }
  else if(ai.kind==A_SQRT) r=std::sqrt(std::max(0.0,arg(0))); else if(ai.kind==A_INV) r=1/arg(0); else if(ai.kind==A_NAMED) r=arg(0);
  else { const std::string&n=ai.name; if(n=="exp")r=std::exp(arg(0)); else if(n=="log")r=std::log(arg(0)); else if(n=="sin")r=std::sin(arg(0)); else if(n=="cos")r=std::cos(arg(0)); else if(n=="tan")r=std::tan(arg(0)); else if(n=="tanh")r=std::tanh(arg(0)); else if(n=="cosh")r=std::cosh(arg(0)); else if(n=="sinh")r=std::sinh(arg(0)); else if(n=="asinh")r=std::asinh(arg(0)); else if(n=="acosh")r=std::acosh(arg(0)); else if(n=="atan")r=std::atan(arg(0)); else if(n=="acos")r=std::acos(arg(0)); else if(n=="asin")r=std::asin(arg(0)); else if(n=="cbrt")r=std::cbrt(arg(0)); else if(n=="atan2")r=std::atan2(arg(0),arg(1)); else if(n=="pow")r=std::pow(arg(0),arg(1)); else { auto q=m.v.find(a); if(q!=m.v.end()) r=q->second; } }
  memo[a]=r; return r; }
double evalPoly(const Poly&p,const Model&m){ std::map<Atom,double> memo; double s=0; for(auto&x:p->t){ double t=mpqToDouble(x.second); for(auto&f:g_monos[x.first].f) t*=std::pow(evalAtom(f.first,m,memo),f.second); s+=t; } return s; }

// ---------- solver ----------
static std::unordered_map<const Cond*,std::vector<Atom>> closureCache;
static void closeAtom(Atom a,std::unordered_set<Atom>&s){ if(!s.insert(a).second) return; for(auto&p:g_atoms[a].args){ std::unordered_set<Atom> t; pAtoms(p,t); for(Atom b:t) closeAtom(b,s); } }
static void closure(const CondP&c,std::unordered_set<Atom>&s){ std::unordered_set<Atom> t; cAtoms(c,t); for(Atom a:t) closeAtom(a,s); }
static const std::vector<Atom>& closureOf(const CondP&c){ auto it=closureCache.find(c.get()); if(it!=closureCache.end()) return it->second; std::unordered_set<Atom> s; closure(c,s); return closureCache[c.get()]=std::vector<Atom>(s.begin(),s.end()); }

static bool g_rich=false;
struct Enc {
  z3::context z; std::map<Atom,z3::expr> vars; std::vector<z3::expr> side; bool nonlinear=false; std::vector<Atom> order;
  std::map<std::string,std::vector<Atom>> funcs;
  z3::expr q(const mpq_class&c){ return z.real_val(c.get_str().c_str()); }
  z3::expr var(Atom a){ auto it=vars.find(a); if(it!=vars.end()) return it->second; std::string nm="a"+std::to_string(a); z3::expr e=z.real_const(nm.c_str()); vars.emplace(a,e); order.push_back(a); define(a,e); return e; }
  z3::expr mono(MonoId m){ z3::expr r=q(1); bool first=true; int deg=0; for(auto&f:g_monos[m].f){ z3::expr v=var(f.first); for(int i=0;i<f.second;i++){ r= first? v: r*v; first=false; deg++; } } if(deg>1) nonlinear=true; return r; }
  z3::expr lin(const Poly&p){ z3::expr_vector v(z); for(auto&x:p->t){ if(x.first==0) v.push_back(q(x.second)); else if(x.second==1) v.push_back(mono(x.first)); else v.push_back(q(x.second)*mono(x.first)); } if(v.size()==0) return q(0); if(v.size()==1) return v[0]; return z3::sum(v); }
  // P = num/den with den a positive-or-nonzero monomial; returns num, den; flip set if den<0 known, square if unknown
  void clear(const Poly&p,bool needSign,Poly&num,Poly&den){ num=p; den=pOne(); 
    for(int guard=0;guard<12;guard++){ // Laurent exponents
      std::map<Atom,int> mn; for(auto&x:num->t) for(auto&f:g_monos[x.first].f) if(f.second<0) mn[f.first]=std::min(mn[f.first],f.second); 
      if(mn.empty()) break; for(auto&m:mn){ int e=-m.second; Poly A=pAtom(m.first); int sm=needSign?signMask(A):5; if(needSign&&sm!=4&&(e%2)) e++; Poly f=pPowInt(A,e); num=pMul(num,f); den=pMul(den,f); } }
    for(int guard=0;guard<6;guard++){ // reciprocal atoms
      Atom best=0; int deg=0; bool found=false; for(auto&x:num->t) for(auto&f:g_monos[x.first].f) if(g_atoms[f.first].kind==A_INV&&f.second>0){ if(!found||f.first==best){ best=f.first; deg=std::max(deg,f.second); found=true; } }
      if(!found) break; Poly P=g_atoms[best].args[0]; int e=deg; int sm=needSign?signMask(P):5; if(needSign&&sm!=4&&(e%2)) e++; size_t est=num->t.size(); for(int i=0;i<e;i++) est*=P->t.size(); if(est>3000) break; 
      // multiply out term by term
      Poly acc=pZero(); Poly Pe=pPowInt(P,e); (void)Pe; for(auto&x:num->t){ int d=0; std::vector<std::pair<Atom,int>> rest; for(auto&f:g_monos[x.first].f){ if(f.first==best) d=f.second; else rest.push_back(f); } Poly t=pConst(x.second); for(auto&f:rest) t=pMul(t,pPowInt(pAtom(f.first),f.second)); t=pMul(t,pPowInt(P,e-d)); acc=pAdd(acc,t); } num=acc; den=pMul(den,Pe); }
  }
  z3::expr rel(Rel r,const Poly&p){ Poly n,d; clear(p,!(r==R_EQ||r==R_NE),n,d); z3::expr e=lin(n); z3::expr z0=q(0); switch(r){case R_EQ:return e==z0;case R_NE:return e!=z0;case R_LT:return e<z0;default:return e<=z0;} }
  z3::expr cond(const CondP&c){ switch(c->k){case C_TRUE:return z.bool_val(true);case C_FALSE:return z.bool_val(false);case C_REL:return rel(c->r,c->p);
    default:{ z3::expr_vector v(z); for(auto&x:c->c) v.push_back(cond(x)); return c->k==C_AND?z3::mk_and(v):z3::mk_or(v);} } }
  // rational value of a poly as an expression (introduces nothing new): num/den == t
  z3::expr eqPoly(z3::expr lhs,const Poly&p){ Poly n,d; clear(p,false,n,d); mpq_class c; if(pIsConst(d,&c)) return lhs*q(c)==lin(n); nonlinear=true; return lhs*lin(d)==lin(n); }
  z3::expr pv(const Poly&p){ // a variable equal to p
    mpq_class c; if(pIsConst(p,&c)) return q(c); bool plain=true; for(auto&x:p->t) for(auto&f:g_monos[x.first].f) if(f.second<0) plain=false; if(plain) return lin(p);
    static int k=0; z3::expr v=z.real_const(("t"+std::to_string(k++)).c_str()); side.push_back(eqPoly(v,p)); return v; }
  void define(Atom a,z3::expr e){ AtomInfo ai=g_atoms[a]; if(ai.hasLo) side.push_back(e>=q(ai.lo)); if(ai.hasHi) side.push_back(e<=q(ai.hi));
    if(ai.kind==A_SQRT){ nonlinear=true; side.push_back(e>=0); side.push_back(eqPoly(e*e,ai.args[0])); }
    else if(ai.kind==A_INV){ nonlinear=true; Poly n,d; clear(ai.args[0],false,n,d); side.push_back(e*lin(n)==lin(d)); int sm=signMask(ai.args[0]); if(sm==4) side.push_back(e>0); if(sm==1) side.push_back(e<0); }
    else if(ai.kind==A_NAMED){ side.push_back(eqPoly(e,ai.args[0])); }
    else if(ai.kind==A_FUNC){ Iv iv=atomInterval(a); if(iv.hl) side.push_back(iv.ls? e>q(iv.lo): e>=q(iv.lo)); if(iv.hh) side.push_back(iv.hs? e<q(iv.hi):e<=q(iv.hi));
      const std::string&n=ai.name; z3::expr x=pv(ai.args[0]);
      if(n=="exp"){ side.push_back(e>=1+x); side.push_back(z3::implies(x<0,e<1)); if(g_rich){ static const int c4[]={-16,-8,-6,-4,-3,-2,-1,0,1,2,3,4,6,8,16}; for(int i=0;i<15;i++){ double c=c4[i]/4.0,f=std::exp(c); if(c4[i]) side.push_back(e>=q(dnD(f))*(1+x-q(mpq_class(c)))); if(i<14){ double c2=c4[i+1]/4.0,f2=std::exp(c2); side.push_back(z3::implies(x>=q(mpq_class(c))&&x<=q(mpq_class(c2)),e<=q(upD(f))+(x-q(mpq_class(c)))*q(upD((f2-f)/(c2-c)*(1+1e-12))))); } } } }
      else if(n=="log"){ side.push_back(e<=x-1); side.push_back(z3::implies(x>1,e>0)); side.push_back(z3::implies(x<1,e<0)); side.push_back(z3::implies(x==1,e==0)); }
      else if(n=="tanh"||n=="atan"||n=="asinh"){ side.push_back(z3::implies(x>0,e>0&&e<=x)); side.push_back(z3::implies(x<0,e<0&&e>=x)); side.push_back(z3::implies(x==0,e==0)); }
      else if(n=="sinh"||n=="cbrt"){ side.push_back(z3::implies(x>0,e>0)); side.push_back(z3::implies(x<0,e<0)); side.push_back(z3::implies(x==0,e==0)); if(n=="sinh"){ side.push_back(z3::implies(x>=0,e>=x)); side.push_back(z3::implies(x<=0,e<=x)); } else { nonlinear=true; side.push_back(e*e*e==x);} }
      else if(n=="cosh"){ side.push_back(z3::implies(x==0,e==1)); side.push_back(z3::implies(x!=0,e>1)); }
      else if(n=="pow"){ z3::expr y=pv(ai.args[1]); side.push_back(z3::implies(x==1||(y==0&&x>0),e==1)); side.push_back(z3::implies(x>0,e>0)); side.push_back(z3::implies(x>1&&y>0,e>1)); side.push_back(z3::implies(x>0&&x<1&&y>0,e<1)); side.push_back(z3::implies(x>1&&y<0,e<1)); side.push_back(z3::implies(x>0&&x<1&&y<0,e>1)); side.push_back(z3::implies(x==0&&y>0,e==0)); side.push_back(z3::implies(y==1,e==x)); side.push_back(z3::implies(x>1&&y>1,e>x)); side.push_back(z3::implies(x>1&&y<1,e<x)); side.push_back(z3::implies(x>0&&x<1&&y>1,e<x)); side.push_back(z3::implies(x>0&&x<1&&y<1,e>x)); }
      if(n=="sin"||n=="cos"){ nonlinear=true; Atom o=funcAtom(n=="sin"?"cos":"sin",ai.args); z3::expr oe=var(o); if(n=="cos") side.push_back(e*e+oe*oe==1); }
      if(n=="sinh"||n=="cosh"){ nonlinear=true; Atom o=funcAtom(n=="sinh"?"cosh":"sinh",ai.args); z3::expr oe=var(o); if(n=="cosh") side.push_back(e*e-oe*oe==1); }
      if(n=="tan"){ nonlinear=true; z3::expr s=var(funcAtom("sin",ai.args)),c=var(funcAtom("cos",ai.args)); side.push_back(e*c==s); }
      for(Atom b:funcs[n]){ AtomInfo bi=g_atoms[b]; z3::expr eb=var(b), xb=pv(bi.args[0]);
        if(n=="exp"||n=="log"||n=="tanh"||n=="sinh"||n=="atan"||n=="asinh"||n=="cbrt"){ side.push_back((x<xb)==(e<eb)); side.push_back((x==xb)==(e==eb)); }
        else if(n=="pow"){ z3::expr y=pv(ai.args[1]),yb=pv(bi.args[1]); side.push_back(z3::implies(x==xb&&y==yb,e==eb)); side.push_back(z3::implies(y==yb&&y>0&&x>=0&&xb>=0,(x<xb)==(e<eb))); }
        else { z3::expr same=(x==xb); for(size_t i=1;i<ai.args.size();i++) same=same&&(pv(ai.args[i])==pv(bi.args[i])); side.push_back(z3::implies(same,e==eb)); } }
      funcs[n].push_back(a); } }
};
static double algToDouble(z3::expr v,std::string&exact){ if(v.is_numeral()){ exact=v.get_decimal_string(30); std::string ns=v.numerator().to_string(),ds=v.denominator().to_string(); if(v.is_algebraic()) {} try{ mpq_class q(ns+"/"+ds); q.canonicalize(); exact=q.get_str(); return mpqToDouble(q);}catch(...){ return std::atof(exact.c_str()); } }
  if(v.is_algebraic()){ z3::expr l=v.algebraic_lower(40); exact=l.get_decimal_string(30); return std::atof(exact.c_str()); }
  exact="?"; return 0; }
static void childSolve(const std::vector<CondP>&cs,bool wantModel,double budget,int fd,bool cross,std::string dump){
  std::string out="unknown\n";
  try{
    Enc E; z3::expr_vector fs(E.z); for(auto&c:cs) fs.push_back(E.cond(c)); for(size_t i=0;i<E.side.size();i++) fs.push_back(E.side[i]);
    z3::check_result r=z3::unknown; std::string used; double t0=nowS();
    std::vector<std::string> strat; if(!E.nonlinear) strat={"lra","smt"}; else strat={"smt1","nlsat","smt2"};
    for(auto&st:strat){ double left=budget-(nowS()-t0); if(left<0.05) break; unsigned ms; z3::solver s(E.z);
      if(st=="nlsat"){ s=(z3::tactic(E.z,"simplify")&z3::tactic(E.z,"propagate-values")&z3::tactic(E.z,"solve-eqs")&z3::tactic(E.z,"purify-arith")&z3::tactic(E.z,"qfnra-nlsat")).mk_solver(); ms=left*1000*0.6; }
      else if(st=="smt1"){ s=z3::solver(E.z); ms=std::min(left,std::max(0.4,budget*0.15))*1000; }
      else { s=z3::solver(E.z); ms=left*1000; }
      z3::params p(E.z); p.set("timeout",ms); if(st=="smt2") { p.set("arith.solver",6u); } s.set(p); for(unsigned i=0;i<fs.size();i++) s.add(fs[i]);
      if(!dump.empty()&&st==strat[0]){ std::ofstream o(dump); o<<"(set-logic ALL)\n"<<s.to_smt2(); }
      r=s.check(); used=st;
      if(r==z3::sat){ out="sat "+used+"\n"; if(wantModel){ z3::model m=s.get_model(); for(Atom a:E.order){ z3::expr v=m.eval(E.vars.at(a),true); std::string ex; double d; try{ d=algToDouble(v,ex);}catch(z3::exception&){ d=0; ex="?"; } char b[64]; snprintf(b,64,"%.17g",d); out+=std::to_string(a)+" "+b+" "+ex+"\n"; } } break; }
      if(r==z3::unsat){ out="unsat "+used+"\n"; break; } }
  }catch(z3::exception&e){ out=std::string("unknown exception ")+e.msg()+"\n"; }
  catch(std::exception&e){ out=std::string("unknown exception ")+e.what()+"\n"; }
  size_t o=0; while(o<out.size()){ ssize_t k=write(fd,out.data()+o,out.size()-o); if(k<=0) break; o+=k; } close(fd); _exit(0);
}
static SolveR runSolver(const std::vector<CondP>&cs,Model*m,double budget){
  double t0=nowS(); int pf[2]; if(pipe(pf)) return S_UNKNOWN; std::string dump; if(!g_dumpDir.empty()) dump=g_dumpDir+"/q"+std::to_string(getpid())+"_"+std::to_string(g_ss.queries)+".smt2";
  pid_t pid=fork(); if(pid==0){ close(pf[0]); signal(SIGINT,SIG_DFL); rlimit rl{(rlim_t)4<<30,(rlim_t)4<<30}; (void)rl; childSolve(cs,m!=nullptr,budget,pf[1],false,dump); }
  close(pf[1]); std::string out; char buf[4096]; bool killed=false; while(true){ double left=budget+2.0-(nowS()-t0); if(left<=0){ kill(pid,SIGKILL); killed=true; break; } pollfd pd{pf[0],POLLIN,0}; int pr=poll(&pd,1,(int)(left*1000)+1); if(pr<=0) continue; ssize_t k=read(pf[0],buf,sizeof buf); if(k<=0) break; out.append(buf,k); }
  close(pf[0]); int st; waitpid(pid,&st,0); double dt=nowS()-t0; g_ss.secs+=dt; g_ss.queries++; g_ss.maxsec=std::max(g_ss.maxsec,dt); (void)killed;
  if(out.compare(0,5,"unsat")==0){ g_ss.unsat++; return S_UNSAT; }
  if(out.compare(0,3,"sat")==0){ g_ss.sat++; if(m){ std::istringstream is(out); std::string line; std::getline(is,line); while(std::getline(is,line)){ std::istringstream l(line); Atom a; std::string d,ex; l>>a>>d; std::getline(l,ex); if(a<g_atoms.size()){ m->v[a]=std::atof(d.c_str()); m->exact[a]=ex; } } } return S_SAT; }
  g_ss.unknown++; if(getenv("VP_VERBOSE")) fprintf(stderr,"[solver] unknown (%s) after %.1fs\n",out.substr(0,80).c_str(),dt); return S_UNKNOWN; }
static std::unordered_map<std::string,SolveR> g_cache;
static std::string keyOf(const std::vector<CondP>&cs){ std::vector<std::string> k; for(auto&c:cs){ std::ostringstream o; std::function<void(const CondP&)> f=[&](const CondP&x){ o<<(int)x->k<<","; if(x->k==C_REL){ o<<(int)x->r<<":"<<x->p->hash<<"/"<<x->p->t.size(); } for(auto&y:x->c) f(y); o<<";"; }; f(c); k.push_back(o.str()); } std::sort(k.begin(),k.end()); std::string s; for(auto&x:k) s+=x+"|"; return s; }
// connected components of the path condition
static void components(const std::vector<CondP>&cs,std::vector<std::vector<CondP>>&out){
  std::unordered_map<Atom,int> own; std::vector<int> par; std::function<int(int)> fd=[&](int x){ return par[x]==x?x:par[x]=fd(par[x]); };
  for(size_t i=0;i<cs.size();i++){ par.push_back(i); for(Atom a:closureOf(cs[i])){ auto it=own.find(a); if(it==own.end()) own[a]=i; else par[fd(i)]=fd(it->second); } }
  std::map<int,std::vector<CondP>> g; for(size_t i=0;i<cs.size();i++) g[fd(i)].push_back(cs[i]); for(auto&x:g) out.push_back(x.second); }
SolveR satWith(const CondP&extra,Model*m,double budget,const char*why){
  int q=quick(extra); if(q==0){ g_ss.quick++; return S_UNSAT; } if(q==1&&!m){ g_ss.quick++; return S_SAT; }
  std::vector<CondP> cs; std::vector<char> usedc(g_pc.cs.size(),0); std::unordered_set<Atom> S; if(extra->k!=C_TRUE){ closure(extra,S); cs.push_back(extra); }
  bool ch=true; while(ch){ ch=false; for(size_t i=0;i<g_pc.cs.size();i++) if(!usedc[i]){ bool hit=false; for(Atom a:closureOf(g_pc.cs[i])) if(S.count(a)){hit=true;break;} if(hit){ usedc[i]=1; cs.push_back(g_pc.cs[i]); for(Atom a:closureOf(g_pc.cs[i])) S.insert(a); ch=true; } } }
  std::string key; if(!m){ key=keyOf(cs); auto it=g_cache.find(key); if(it!=g_cache.end()){ g_ss.cached++; return it->second; } }
  SolveR r=S_SAT; if(!cs.empty()) r=runSolver(cs,m,budget);
  if(getenv("VP_VERBOSE")) fprintf(stderr,"[solver] %s n=%zu -> %s (%.3f)\n",why,cs.size(),r==S_SAT?"sat":r==S_UNSAT?"unsat":"unknown",g_ss.secs);
  if(!m) g_cache[key]=r;
  if(r==S_SAT&&m){ std::vector<CondP> rest; for(size_t i=0;i<g_pc.cs.size();i++) if(!usedc[i]) rest.push_back(g_pc.cs[i]); std::vector<std::vector<CondP>> comps; components(rest,comps); for(auto&c:comps){ Model mm; SolveR rr=runSolver(c,&mm,budget); if(rr==S_SAT) for(auto&x:mm.v){ m->v[x.first]=x.second; m->exact[x.first]=mm.exact[x.first]; } } }
  return r; }

// ---------- genuine counterexamples in the presence of transcendental functions ----------
// The solver sees exp, log, sin, ... through axioms only. A model is genuine if all conditions hold with the real functions;
// otherwise arguments are pinned to values at which the function is known and the remaining freedom is searched again.
static void sliceFor(const CondP&extra,std::vector<CondP>&cs){ std::unordered_set<Atom> S; std::vector<char> used(g_pc.cs.size(),0); if(extra->k!=C_TRUE){ closure(extra,S); cs.push_back(extra); }
  bool ch=true; while(ch){ ch=false; for(size_t i=0;i<g_pc.cs.size();i++) if(!used[i]){ bool hit=S.empty(); for(Atom a:closureOf(g_pc.cs[i])) if(S.count(a)){hit=true;break;} if(hit){ used[i]=1; cs.push_back(g_pc.cs[i]); for(Atom a:closureOf(g_pc.cs[i])) S.insert(a); ch=true; } } } }
static bool holdsNum(const CondP&c,const Model&m,std::map<Atom,double>&memo){ switch(c->k){ case C_TRUE:return true; case C_FALSE:return false;
  case C_REL:{ double s=0,mag=1e-12; for(auto&x:c->p->t){ double t=mpqToDouble(x.second); for(auto&f:g_monos[x.first].f) t*=std::pow(evalAtom(f.first,m,memo),f.second); s+=t; mag=std::max(mag,std::fabs(t)); } if(!std::isfinite(s)) return false; double e=1e-9*mag; switch(c->r){case R_EQ:return std::fabs(s)<=e;case R_NE:return s!=0;case R_LT:return s<e;default:return s<=e;} }
  case C_AND: for(auto&x:c->c) if(!holdsNum(x,m,memo)) return false; return true;
  case C_OR: for(auto&x:c->c) if(holdsNum(x,m,memo)) return true; return false; } return false; }
static bool bareAtom(const Poly&p,Atom&a){ if(p->t.size()==1&&p->t[0].second==1&&g_monos[p->t[0].first].f.size()==1&&g_monos[p->t[0].first].f[0].second==1){ a=g_monos[p->t[0].first].f[0].first; return true; } return false; }
static double fnVal(const std::string&n,double x,double y){ if(n=="exp")return std::exp(x); if(n=="log")return std::log(x); if(n=="sin")return std::sin(x); if(n=="cos")return std::cos(x); if(n=="tan")return std::tan(x); if(n=="tanh")return std::tanh(x); if(n=="cosh")return std::cosh(x); if(n=="sinh")return std::sinh(x); if(n=="asinh")return std::asinh(x); if(n=="acosh")return std::acosh(x); if(n=="atan")return std::atan(x); if(n=="acos")return std::acos(x); if(n=="asin")return std::asin(x); if(n=="cbrt")return std::cbrt(x); if(n=="atan2")return std::atan2(x,y); if(n=="pow")return std::pow(x,y); return NAN; }
static mpq_class roundQ(double d){ return mpq_class(std::floor(d*65536+0.5)/65536); }
static CondP pinEq(const Poly&p,const mpq_class&c){ return cRel(R_EQ,pSub(p,pConst(c))); }
bool genuineModel(const CondP&n,Model&m){ std::vector<CondP> cs; sliceFor(n,cs); std::unordered_set<Atom> S; for(auto&c:cs) closure(c,S);
  for(Atom a:S){ AtomInfo&ai=g_atoms[a]; if(ai.kind!=A_FUNC||ai.name!="cos") continue; Atom x; if(!bareAtom(ai.args[0],x)) continue; Atom o=funcAtom("sin",ai.args); auto c=m.v.find(a),s=m.v.find(o); if(c!=m.v.end()&&s!=m.v.end()) m.v[x]=std::atan2(s->second,c->second); }
  std::map<Atom,double> memo; for(auto&c:cs) if(!holdsNum(c,m,memo)) return false; return true; }
static bool cexOnce(const CondP&n,Model&m,bool have,double budget,int rot){ double t0=nowS(); if(have&&genuineModel(n,m)) return true;
  std::vector<CondP> cs; sliceFor(n,cs); std::unordered_set<Atom> S; for(auto&c:cs) closure(c,S); std::map<size_t,std::vector<Atom>> tg; std::vector<std::vector<Atom>> order; std::vector<Atom> ids(S.begin(),S.end()); std::sort(ids.begin(),ids.end());
  for(Atom a:ids) if(g_atoms[a].kind==A_FUNC&&std::isfinite(fnVal(g_atoms[a].name,0.5,0.5)+0)){ size_t h=0; for(auto&p:g_atoms[a].args) h=h*31+p->hash; bool put=false; for(auto&g:order) if(g_atoms[g[0]].args.size()==g_atoms[a].args.size()){ bool eq=true; for(size_t i=0;i<g_atoms[a].args.size();i++) if(!pEq(g_atoms[g[0]].args[i],g_atoms[a].args[i])) eq=false; if(eq){ g.push_back(a); put=true; break; } } if(!put) order.push_back({a}); }
  if(order.size()>14) return false; Model cur; if(have) cur=m; else { SolveR r=satWith(cTrue(),&cur,budget/4,"pin-base"); if(r!=S_SAT) cur=Model(); }
  CondP pins=cTrue(); SolveR last=have?S_SAT:S_UNKNOWN; static const double cand[]={0.5,-0.5,1,-1,0.125,-0.125,2,-2,0}; std::vector<char> pinned(order.size(),0);
  while(true){ int gi=-1; // next group: one that makes a condition fail numerically; without a model simply the next one
    if(last==S_SAT){ if(genuineModel(n,cur)){ m=cur; return true; } std::map<Atom,double> memo; std::unordered_set<Atom> F; for(auto&c:cs) if(!holdsNum(c,cur,memo)) closure(c,F); for(size_t i=0;i<order.size()&&gi<0;i++) if(!pinned[i]) for(Atom a:order[i]) if(F.count(a)){ double f=evalAtom(a,cur,memo); auto it=cur.v.find(a); if(it==cur.v.end()||std::fabs(f-it->second)>1e-9*(1+std::fabs(f))) gi=i; } }
    if(gi<0) for(size_t i=0;i<order.size()&&gi<0;i++) if(!pinned[i]) gi=i;
    if(gi<0) break; pinned[gi]=1; auto&g=order[gi]; auto args=g_atoms[g[0]].args; bool cst=true; for(auto&p:args) if(!pIsConst(p)) cst=false; if(cst) continue; std::vector<double> v0; for(auto&p:args) v0.push_back(evalPoly(p,cur)); bool done=false; CondP maybe;
    for(int kk=-1;kk<9&&!done;kk++){ int k= rot==0? kk: kk==8? -1: (kk+1+rot*3+gi*2)%9; if(nowS()-t0>budget) return false; CondP pin=cTrue(); std::vector<double> v; bool skip=false; for(size_t i=0;i<args.size();i++){ double x= k<0||i>0? v0[i]: cand[k]; if(!std::isfinite(x)||std::fabs(x)>600){skip=true;break;} mpq_class q=roundQ(x); Iv iv=pInterval(args[i]); if((iv.hl&&q<iv.lo)||(iv.hh&&q>iv.hi)){ skip=true; break; } v.push_back(q.get_d()); pin=cAnd(pin,pinEq(args[i],q)); } if(skip) continue; if(v.size()<2) v.push_back(0);
      for(Atom a:g){ double f=fnVal(g_atoms[a].name,v[0],v[1]); if(!std::isfinite(f)){ skip=true; break; } double e=1e-13*std::max(1e-3,std::fabs(f)); Poly A=pAtom(a); pin=cAnd(pin,cAnd(cRel(R_LE,pSub(pConst(mpq_class(f-e)),A)),cRel(R_LE,pSub(A,pConst(mpq_class(f+e)))))); } if(skip||pin->k==C_FALSE) continue;
      Model m2; SolveR r=satWith(cAnd(n,cAnd(pins,pin)),&m2,std::min(4.0,budget/5),"pin"); if(r==S_SAT){ pins=cAnd(pins,pin); cur=m2; last=r; done=true; } else if(r==S_UNKNOWN&&!maybe) maybe=pin; }
    if(!done){ if(!maybe) return false; pins=cAnd(pins,maybe); last=S_UNKNOWN; } }
  if(last==S_UNKNOWN){ // fix more and more inputs at values consistent with the path
    Model base; if(satWith(pins,&base,budget/4,"pin-base")!=S_SAT) return false; std::vector<Atom> in; for(Atom a:ids) if(g_atoms[a].kind==A_INPUT) in.push_back(a); if(in.empty()) return false;
    for(int att=0;att<6&&last!=S_SAT;att++){ if(nowS()-t0>budget) return false; CondP p2=pins; for(size_t i=0;i<in.size();i++){ bool fix= ((i*2654435761u+att*40503u)>>3)%4 != (unsigned)(att%4); if(!fix) continue; auto it=base.v.find(in[i]); if(it==base.v.end()) continue; mpq_class q; auto ex=base.exact.find(in[i]); try{ std::string e=ex->second; while(!e.empty()&&e[0]==' ') e.erase(0,1); q=mpq_class(e); q.canonicalize(); }catch(...){ q=mpq_class(it->second); } p2=cAnd(p2,pinEq(pAtom(in[i]),q)); }
      if(p2->k==C_FALSE) continue; Model m2; SolveR r=satWith(cAnd(n,p2),&m2,std::min(3.0,budget/6),"pin-in"); if(r==S_SAT){ cur=m2; last=r; } } }
  if(last==S_SAT){ genuineModel(n,cur); m=cur; return true; } return false; }
static bool cexLoop(const CondP&n,Model&m,bool have,double budget){ if(have&&genuineModel(n,m)) return true; double t0=nowS(); g_rich=true; bool ok=false; if(have){ Model m2; if(satWith(n,&m2,std::min(5.0,budget/4),"rich")==S_SAT) m=m2; }
  for(int rot=0;rot<5&&!ok;rot++){ double left=budget-(nowS()-t0); if(left<1) break; Model m2=m; if(cexOnce(n,m2,have,left*(rot<3?0.5:1),rot)){ m=m2; ok=true; } } g_rich=false; return ok; }
bool findCex(const CondP&n,Model&m,bool have,double budget){ double t0=nowS();
  // prefer a counterexample away from the borders of its path, which rounding cannot move across
  std::vector<CondP> cs; sliceFor(n,cs); for(double d:{1e-3,1e-6}){ CondP w=n; int k=0; for(auto&c:cs) if(c!=n&&c->k==C_REL&&(c->r==R_LT||c->r==R_LE)){ w=cAnd(w,cRel(R_LE,pAdd(c->p,pConst(mpq_class(d))))); k++; } if(!k) break; Model m2; SolveR r=satWith(w,&m2,std::min(3.0,budget/8),"margin"); if(r==S_UNSAT) continue; if(r==S_SAT){ if(cexLoop(w,m2,true,budget/3)){ m=m2; return true; } } else if(!have&&cexLoop(w,m2,false,budget/3)){ m=m2; return true; } break; }
  return cexLoop(n,m,have,std::max(1.0,budget-(nowS()-t0))); }
// path condition snapshots (loop abstraction)
static std::vector<CondP> g_grave;
struct PcSnap { PathCond pc; std::unordered_map<size_t,std::vector<Fact>> facts; };
std::shared_ptr<PcSnap> pcSave(){ auto s=std::make_shared<PcSnap>(); s->pc=g_pc; s->facts=g_facts; return s; }
void pcRestore(const std::shared_ptr<PcSnap>&s){ g_grave.insert(g_grave.end(),g_pc.cs.begin(),g_pc.cs.end()); g_pc=s->pc; g_facts=s->facts; }
void atomClosure(const Poly&p,std::unordered_set<Atom>&s){ std::unordered_set<Atom> t; pAtoms(p,t); for(Atom a:t) closeAtom(a,s); }
