#include "poly.h"
#include <cmath>
#include <sstream>
#include <cstring>
#include <set>

std::vector<AtomInfo> g_atoms;
std::vector<Mono> g_monos;
size_t g_nameLimit = 4000;

struct MonoHash { size_t operator()(const std::vector<std::pair<Atom,int>>&v) const {
  size_t h=1469598103934665603ull; for(auto&p:v){h^=p.first*2654435761u+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h^=(size_t)(p.second+77)*1099511628211ull+(h<<5);} return h;} };
static std::unordered_map<std::vector<std::pair<Atom,int>>,MonoId,MonoHash> monoTab;
static std::unordered_map<uint64_t,MonoId> monoMulCache;

static MonoId internMono(const std::vector<std::pair<Atom,int>>&f){
  if(g_monos.empty()){ g_monos.push_back(Mono()); monoTab[{}]=0; }
  auto it=monoTab.find(f); if(it!=monoTab.end()) return it->second;
  Mono m; m.f=f;
  for(auto&p:f){ auto k=g_atoms[p.first].kind;
    if(k==A_SQRT && (p.second>=2||p.second<0)) m.needsReduce=true;
    if(k==A_FUNC && g_atoms[p.first].name=="sin" && p.second>=2) m.needsReduce=true;
    if(k==A_INV){ m.hasInv=true; if(p.second<0) m.needsReduce=true; }
    if(p.second<0) m.hasNeg=true; }
  MonoId id=g_monos.size(); g_monos.push_back(m); monoTab[f]=id; return id;
}
static MonoId monoMul(MonoId a,MonoId b){
  if(a==0) return b; if(b==0) return a; if(a>b) std::swap(a,b);
  uint64_t key=((uint64_t)a<<32)|b; auto it=monoMulCache.find(key); if(it!=monoMulCache.end()) return it->second;
  std::vector<std::pair<Atom,int>> r; const auto&x=g_monos[a].f; const auto&y=g_monos[b].f;
  size_t i=0,j=0; while(i<x.size()||j<y.size()){
    if(j>=y.size()||(i<x.size()&&x[i].first<y[j].first)) r.push_back(x[i++]);
    else if(i>=x.size()||y[j].first<x[i].first) r.push_back(y[j++]);
    else { int e=x[i].second+y[j].second; if(e) r.push_back({x[i].first,e}); i++;j++; } }
  MonoId m=internMono(r); monoMulCache[key]=m; return m;
}
static MonoId monoInvert(MonoId a){ auto f=g_monos[a].f; for(auto&p:f)p.second=-p.second; return internMono(f); }

static size_t hashMpq(const mpq_class&q){ // cheap
  size_t h=mpz_get_ui(q.get_num_mpz_t())*1000003u ^ mpz_get_ui(q.get_den_mpz_t()); if(sgn(q)<0) h^=0x5555; return h; }
static Poly finish(std::vector<std::pair<MonoId,mpq_class>>&&t){
  auto p=std::make_shared<PolyData>(); p->t=std::move(t); size_t h=p->t.size();
  for(auto&x:p->t){ h=h*1000003u ^ x.first; h=h*1000003u ^ hashMpq(x.second); if(g_monos[x.first].hasInv)p->hasInv=true; }
  p->hash=h; return p; }
static void initMono(){ if(g_monos.empty()) internMono({}); }
Poly pConst(const mpq_class&c){ initMono(); std::vector<std::pair<MonoId,mpq_class>> t; if(c!=0) t.push_back({0,c}); return finish(std::move(t)); }
Poly pZero(){ static Poly z=pConst(0); return z; }
Poly pOne(){ static Poly z=pConst(1); return z; }
bool pIsZero(const Poly&p){ return p->t.empty(); }
bool pIsConst(const Poly&p,mpq_class*c){ if(p->t.empty()){ if(c)*c=0; return true;} if(p->t.size()==1&&p->t[0].first==0){ if(c)*c=p->t[0].second; return true;} return false; }
bool pEq(const Poly&a,const Poly&b){ if(a==b) return true; if(a->hash!=b->hash||a->t.size()!=b->t.size()) return false;
  for(size_t i=0;i<a->t.size();i++) if(a->t[i].first!=b->t[i].first||a->t[i].second!=b->t[i].second) return false; return true; }
Poly pAtom(Atom a){ initMono(); MonoId m=internMono({{a,1}}); std::vector<std::pair<MonoId,mpq_class>> t; t.push_back({m,mpq_class(1)}); return finish(std::move(t)); }
Poly pScale(const Poly&p,const mpq_class&c){ if(c==1) return p; if(c==0) return pZero(); auto t=p->t; for(auto&x:t)x.second*=c; return finish(std::move(t)); }
Poly pNeg(const Poly&p){ return pScale(p,-1); }
static Poly addRaw(const Poly&a,const Poly&b){
  if(a->t.empty()) return b; if(b->t.empty()) return a;
  std::vector<std::pair<MonoId,mpq_class>> r; r.reserve(a->t.size()+b->t.size());
  size_t i=0,j=0; while(i<a->t.size()||j<b->t.size()){
    if(j>=b->t.size()||(i<a->t.size()&&a->t[i].first<b->t[j].first)) r.push_back(a->t[i++]);
    else if(i>=a->t.size()||b->t[j].first<a->t[i].first) r.push_back(b->t[j++]);
    else { mpq_class c=a->t[i].second+b->t[j].second; if(c!=0) r.push_back({a->t[i].first,c}); i++;j++; } }
  return finish(std::move(r)); }
static Poly simplifyInv(const Poly&p);
Poly pAdd(const Poly&a,const Poly&b){ Poly r=addRaw(a,b); if(r->hasInv) r=simplifyInv(r); return r; }
Poly pSub(const Poly&a,const Poly&b){ return pAdd(a,pNeg(b)); }

static Poly fromMap(std::unordered_map<MonoId,mpq_class>&m){
  std::vector<std::pair<MonoId,mpq_class>> t; t.reserve(m.size()); for(auto&x:m) if(x.second!=0) t.push_back({x.first,x.second});
  std::sort(t.begin(),t.end(),[](auto&a,auto&b){return a.first<b.first;}); return finish(std::move(t)); }
static Poly mulRaw(const Poly&a,const Poly&b);
static Poly powRaw(const Poly&a,int n){ Poly r=pOne(); for(int i=0;i<n;i++) r=pMul(r,a); return r; }
// rewrite sqrt^k, sin^k, negative exps of inv atoms
static Poly reduce(const Poly&p){
  bool need=false; for(auto&x:p->t) if(g_monos[x.first].needsReduce){need=true;break;}
  if(!need) return p;
  Poly acc=pZero(); std::vector<std::pair<MonoId,mpq_class>> keep;
  std::vector<Poly> extra;
  for(auto&x:p->t){ if(!g_monos[x.first].needsReduce){ keep.push_back(x); continue; }
    auto f=g_monos[x.first].f; Poly factor=pConst(x.second); std::vector<std::pair<Atom,int>> rest;
    for(auto&pr:f){ AtomInfo ai=g_atoms[pr.first];
      if(ai.kind==A_SQRT && (pr.second>=2||pr.second<0)){
        int e=pr.second; int k,r; if(e>=0){k=e/2;r=e%2;} else { k=-((-e+1)/2); r=e-2*k; } // e=2k+r, r in{0,1}
        if(r) rest.push_back({pr.first,1});
        if(k>0) factor=pMul(factor,powRaw(ai.args[0],k)); else if(k<0) factor=pMul(factor,powRaw(pDiv(pOne(),ai.args[0]),-k));
      } else if(ai.kind==A_FUNC && ai.name=="sin" && pr.second>=2){
        int k=pr.second/2,r=pr.second%2; if(r) rest.push_back({pr.first,1});
        Poly c=pAtom(funcAtom("cos",ai.args)); factor=pMul(factor,powRaw(pSub(pOne(),pMul(c,c)),k));
      } else if(ai.kind==A_INV && pr.second<0){ factor=pMul(factor,powRaw(ai.args[0],-pr.second));
      } else rest.push_back(pr); }
    MonoId rm=internMono(rest); std::vector<std::pair<MonoId,mpq_class>> t; t.push_back({rm,mpq_class(1)}); Poly rp=finish(std::move(t));
    extra.push_back(pMul(factor,rp)); }
  acc=finish(std::move(keep)); for(auto&e:extra) acc=pAdd(acc,e); return acc; }
static Poly mulRaw(const Poly&a,const Poly&b){
  if(a->t.empty()||b->t.empty()) return pZero();
  if(a->t.size()==1&&a->t[0].first==0) return pScale(b,a->t[0].second);
  if(b->t.size()==1&&b->t[0].first==0) return pScale(a,b->t[0].second);
  std::unordered_map<MonoId,mpq_class> m; m.reserve(a->t.size()*b->t.size());
  for(auto&x:a->t) for(auto&y:b->t){ MonoId id=monoMul(x.first,y.first); auto&c=m[id]; c+=x.second*y.second; }
  return fromMap(m); }
static bool commonInv(const Poly&p,Atom&out){ // an inv atom with exp>=1 in every term
  if(p->t.empty()||!p->hasInv) return false;
  for(auto&pr:g_monos[p->t[0].first].f) if(g_atoms[pr.first].kind==A_INV&&pr.second>=1){ bool all=true;
    for(auto&x:p->t){ bool has=false; for(auto&q:g_monos[x.first].f) if(q.first==pr.first&&q.second>=1){has=true;break;} if(!has){all=false;break;} }
    if(all){ out=pr.first; return true; } }
  return false; }
static std::vector<Atom> commonInvs(const Poly&p){ std::vector<Atom> r; if(p->t.empty()||!p->hasInv) return r;
  for(auto&pr:g_monos[p->t[0].first].f) if(g_atoms[pr.first].kind==A_INV&&pr.second>=1){ bool all=true;
    for(auto&x:p->t){ bool has=false; for(auto&q:g_monos[x.first].f) if(q.first==pr.first&&q.second>=1){has=true;break;} if(!has){all=false;break;} }
    if(all) r.push_back(pr.first); }
  return r; }
static Poly mulMono(const Poly&p,MonoId m){ std::vector<std::pair<MonoId,mpq_class>> t; for(auto&x:p->t) t.push_back({monoMul(x.first,m),x.second});
  std::sort(t.begin(),t.end(),[](auto&a,auto&b){return a.first<b.first;}); return finish(std::move(t)); }
static Poly simplifyInv(const Poly&p0){
  Poly p=p0; bool ch=true; int guard=0;
  while(ch&&guard++<8){ ch=false; for(Atom v:commonInvs(p)){ MonoId inv=internMono({{v,-1}}); MonoId cancel=inv; // multiply by v^-1
      std::vector<std::pair<MonoId,mpq_class>> t; for(auto&x:p->t) t.push_back({monoMul(x.first,cancel),x.second});
      std::sort(t.begin(),t.end(),[](auto&a,auto&b){return a.first<b.first;}); Poly num=finish(std::move(t)); Poly q;
      if(num->t.size()>1 && pDivExact(num,g_atoms[v].args[0],q)){ p=q; ch=true; break; } } }
  return p; }
Poly pMul(const Poly&a0,const Poly&b0){
  Poly a=a0,b=b0;
  if(b->hasInv&&a->t.size()>1){ for(Atom v:commonInvs(b)){ Poly q; if(pDivExact(a,g_atoms[v].args[0],q)){ a=q; b=mulMono(b,internMono({{v,-1}})); if(a->t.size()<=1)break; } } }
  if(a->hasInv&&b->t.size()>1){ for(Atom v:commonInvs(a)){ Poly q; if(pDivExact(b,g_atoms[v].args[0],q)){ b=q; a=mulMono(a,internMono({{v,-1}})); if(b->t.size()<=1)break; } } }
  Poly r=mulRaw(a,b); r=reduce(r); if(r->hasInv) r=simplifyInv(r); return r; }
Poly pPowInt(const Poly&p,int n){ if(n>=0) return powRaw(p,n); return pDiv(pOne(),powRaw(p,-n)); }

// exact multivariate division (lex order on (atom,exp)); Laurent monomials are cleared first
struct LexLess { bool operator()(const std::vector<std::pair<Atom,int>>&x,const std::vector<std::pair<Atom,int>>&y) const {
  size_t i=0,j=0; while(i<x.size()||j<y.size()){ Atom ax=i<x.size()?x[i].first:~0u, ay=j<y.size()?y[j].first:~0u;
    if(ax==ay){ if(x[i].second!=y[j].second) return x[i].second<y[j].second; i++;j++; }
    else if(ax<ay){ if(x[i].second!=0) return x[i].second<0; i++; }
    else { if(y[j].second!=0) return 0<y[j].second; j++; } } return false; } };
bool pDivExact(const Poly&a,const Poly&b,Poly&q){
  if(b->t.empty()) return false; if(a->t.empty()){q=pZero();return true;}
  if(b->t.size()==1){ return false; }
  if(a->t.size()<b->t.size()) return false; if(a->t.size()>4000||b->t.size()>600) return false;
  // clear negative exponents
  std::map<Atom,int> mina,minb; 
  auto collect=[&](const Poly&p,std::map<Atom,int>&m){ std::map<Atom,int> cnt; for(auto&x:p->t) for(auto&f:g_monos[x.first].f){ cnt[f.first]++; auto it=m.find(f.first); if(it==m.end()) m[f.first]=f.second; else it->second=std::min(it->second,f.second);} 
    for(auto&c:cnt) if(c.second<(int)p->t.size()) m[c.first]=std::min(m[c.first],0); };
  collect(a,mina); collect(b,minb);
  // every atom with a positive spread in b must appear in a
  for(auto&x:b->t) for(auto&f:g_monos[x.first].f) if(f.second!=minb[f.first] && !mina.count(f.first)) return false;
  auto norm=[&](const Poly&p,std::map<Atom,int>&m){ std::map<std::vector<std::pair<Atom,int>>,mpq_class,LexLess> r; std::vector<std::pair<Atom,int>> sh; for(auto&x:m) if(x.second) sh.push_back({x.first,-x.second}); MonoId s=internMono(sh);
    for(auto&x:p->t) r[g_monos[monoMul(x.first,s)].f]=x.second; return std::make_pair(r,s); };
  auto na=norm(a,mina); auto nb=norm(b,minb); auto&A=na.first; auto&B=nb.first;
  // quick degree check
  auto maxdeg=[&](decltype(na.first)&m){ std::map<Atom,int> d; for(auto&x:m) for(auto&f:x.first) d[f.first]=std::max(d[f.first],f.second); return d; };
  { auto da=maxdeg(A),db=maxdeg(B); for(auto&x:db){ auto it=da.find(x.first); if(it==da.end()||it->second<x.second) return false; } }
  { // modular evaluation test: if B | A then A(x)=0 whenever B(x)=0 is hard to sample; test trailing term divisibility instead
    auto&ta=A.begin()->first; auto&tb=B.begin()->first; std::map<Atom,int> e; for(auto&f:ta)e[f.first]+=f.second; for(auto&f:tb)e[f.first]-=f.second; for(auto&x:e) if(x.second<0) return false; }
  auto lead=*B.rbegin(); std::vector<std::pair<MonoId,mpq_class>> qt; size_t steps=0;
  while(!A.empty()){ if(++steps>6000) return false; auto la=*A.rbegin(); std::map<Atom,int> e; for(auto&f:la.first)e[f.first]+=f.second; for(auto&f:lead.first)e[f.first]-=f.second;
    std::vector<std::pair<Atom,int>> mq; for(auto&x:e){ if(x.second<0) return false; if(x.second) mq.push_back({x.first,x.second}); }
    mpq_class c=la.second/lead.second; MonoId mid=internMono(mq); qt.push_back({mid,c});
    for(auto&y:B){ MonoId ym=internMono(y.first); auto&key=g_monos[monoMul(mid,ym)].f; auto it=A.find(key); mpq_class d=c*y.second; if(it==A.end()){ A[key]=-d; } else { it->second-=d; if(it->second==0) A.erase(it);} }
    if(A.size()>8000) return false; }
  // undo shifts: a*sa = A ; b*sb=B ; A=Q*B => a = Q*b*sb/sa
  MonoId adj=monoMul(nb.second,monoInvert(na.second)); std::vector<std::pair<MonoId,mpq_class>> t; for(auto&x:qt) t.push_back({monoMul(x.first,adj),x.second});
  std::sort(t.begin(),t.end(),[](auto&a,auto&b){return a.first<b.first;}); q=finish(std::move(t)); 
  for(auto&x:q->t) if(g_monos[x.first].needsReduce){ q=reduce(q); break; }
  return true; }

static std::unordered_map<size_t,std::vector<Atom>> keyedAtoms;
static Atom keyed(AtomKind k,const std::string&name,const std::vector<Poly>&args){
  size_t h=std::hash<std::string>()(name)*31+k; for(auto&a:args) h=h*1000003u^a->hash;
  for(Atom a:keyedAtoms[h]){ auto&ai=g_atoms[a]; if(ai.kind==k&&ai.name==name&&ai.args.size()==args.size()){ bool ok=true; for(size_t i=0;i<args.size();i++) if(!pEq(ai.args[i],args[i])){ok=false;break;} if(ok) return a; } }
  AtomInfo ai; ai.kind=k; ai.name=name; ai.args=args; Atom id=g_atoms.size(); g_atoms.push_back(ai); keyedAtoms[h].push_back(id); return id; }
Atom funcAtom(const std::string&n,const std::vector<Poly>&args){ return keyed(A_FUNC,n,args); }
Atom newInput(const std::string&n,bool hl,mpq_class lo,bool hh,mpq_class hi){ AtomInfo ai; ai.kind=A_INPUT; ai.name=n; ai.hasLo=hl; ai.lo=lo; ai.hasHi=hh; ai.hi=hi; g_atoms.push_back(ai); return g_atoms.size()-1; }
Atom newFresh(const std::string&n){ AtomInfo ai; ai.kind=A_FRESH; ai.name=n; g_atoms.push_back(ai); return g_atoms.size()-1; }

Poly pDiv(const Poly&a,const Poly&b){
  mpq_class c; if(pIsConst(b,&c)) return pScale(a,1/c); if(a->t.empty()) return a;
  if(b->t.size()==1){ auto&x=b->t[0]; // Laurent
    Poly m=finish({{monoInvert(x.first),mpq_class(1/x.second)}}); m=reduce(m); return pMul(a,m); }
  // scalar multiple?
  if(a->t.size()==b->t.size()){ bool same=true; mpq_class r=a->t[0].second/b->t[0].second; for(size_t i=0;i<a->t.size();i++) if(a->t[i].first!=b->t[i].first||a->t[i].second!=r*b->t[i].second){same=false;break;} if(same) return pConst(r); }
  Poly q; if(pDivExact(a,b,q)) return q;
  // factor the denominator's inv part: if b has common inv atoms, 1/b = (1/b') * P
  { auto ci=commonInvs(b); if(!ci.empty()){ Poly num=a,den=b; for(Atom v:ci){ den=mulMono(den,internMono({{v,-1}})); num=pMul(num,g_atoms[v].args[0]); } return pDiv(num,den); } }
  mpq_class lc=b->t[0].second; Poly bn=pScale(b,1/lc);
  // pull out the monomial content
  { std::map<Atom,int> m; std::map<Atom,int> cnt; for(auto&x:bn->t) for(auto&f:g_monos[x.first].f){ cnt[f.first]++; auto it=m.find(f.first); if(it==m.end()) m[f.first]=f.second; else it->second=std::min(it->second,f.second);} 
    std::vector<std::pair<Atom,int>> sh; for(auto&x:m){ int e=x.second; if(cnt[x.first]<(int)bn->t.size()) e=std::min(e,0); if(e) sh.push_back({x.first,-e}); }
    if(!sh.empty()){ MonoId s=internMono(sh); Poly b2=mulMono(bn,s); Poly mono=finish({{s,mpq_class(1)}}); mono=reduce(mono); return pDiv(pMul(pScale(a,1/lc),mono),b2);} }
  Atom v=keyed(A_INV,"inv",{bn}); return pScale(pMul(a,pAtom(v)),1/lc); }

// division with remainder by one polynomial (canonical for a fixed monomial order); a and b free of negative exponents
static bool pDivRem(const Poly&a,const Poly&b,Poly&q,Poly&r){ typedef std::map<std::vector<std::pair<Atom,int>>,mpq_class,LexLess> PM; PM A,B; for(auto&x:a->t){ A[g_monos[x.first].f]=x.second; } for(auto&x:b->t){ if(g_monos[x.first].hasNeg) return false; B[g_monos[x.first].f]=x.second; }
  auto lead=*B.rbegin(); std::unordered_map<MonoId,mpq_class> Q,R; size_t steps=0; bool any=false;
  while(!A.empty()){ if(++steps>600000) return false; auto la=*A.rbegin(); bool ok=true; std::vector<std::pair<Atom,int>> mq; { size_t i=0; for(auto&f:la.first){ int e=f.second; while(i<lead.first.size()&&lead.first[i].first<f.first){ ok=false; i++; } if(i<lead.first.size()&&lead.first[i].first==f.first){ e-=lead.first[i].second; if(e<0) ok=false; i++; } if(e) mq.push_back({f.first,e}); } if(i<lead.first.size()) ok=false; }
    if(!ok){ R[internMono(la.first)]+=la.second; A.erase(std::prev(A.end())); continue; }
    any=true; mpq_class c=la.second/lead.second; MonoId mid=internMono(mq); Q[mid]+=c; for(auto&y:B){ MonoId ym=internMono(y.first); auto key=g_monos[monoMul(mid,ym)].f; auto it=A.find(key); mpq_class d=c*y.second; if(it==A.end()) A[key]=-d; else { it->second-=d; if(it->second==0) A.erase(it); } }
    if(A.size()>60000) return false; }
  if(!any) return false; q=fromMap(Q); r=fromMap(R); return true; }
Poly pExpandNamed(const Poly&p){ Poly r=p; for(int g=0;g<20;g++){ bool named=false; for(auto&x:r->t) for(auto&f:g_monos[x.first].f) if(g_atoms[f.first].kind==A_NAMED&&f.second>0) named=true; if(!named) return r; std::vector<std::pair<MonoId,mpq_class>> keep; std::vector<Poly> add; for(auto&x:r->t){ bool n=false; for(auto&f:g_monos[x.first].f) if(g_atoms[f.first].kind==A_NAMED&&f.second>0) n=true; if(!n){ keep.push_back(x); continue; } Poly t=pConst(x.second); std::vector<std::pair<Atom,int>> rest; for(auto&f:g_monos[x.first].f){ if(g_atoms[f.first].kind==A_NAMED&&f.second>0) t=pMul(t,powRaw(g_atoms[f.first].args[0],f.second)); else rest.push_back(f); } if(!rest.empty()) t=pMul(t,finish({{internMono(rest),mpq_class(1)}})); add.push_back(t); if(t->t.size()>400000) return p; } Poly acc=finish(std::move(keep)); for(auto&t:add) acc=addRaw(acc,t); r=acc; if(r->t.size()>400000) return p; } return r; }
// cancel reciprocals term group by term group
Poly pCancel(const Poly&p0){ Poly p=p0; for(int guard=0;guard<400;guard++){ if(!p->hasInv) return p; bool ch=false; std::set<Atom> invs; for(auto&x:p->t) for(auto&f:g_monos[x.first].f) if(g_atoms[f.first].kind==A_INV&&f.second>0) invs.insert(f.first);
    for(Atom v:invs){ const Poly P=g_atoms[v].args[0]; std::map<int,std::vector<std::pair<MonoId,mpq_class>>> byDeg; std::vector<std::pair<MonoId,mpq_class>> rest; for(auto&x:p->t){ int d=0; for(auto&f:g_monos[x.first].f) if(f.first==v) d=f.second; if(d>0) byDeg[d].push_back(x); else rest.push_back(x); }
      int d=byDeg.rbegin()->first; auto grp=byDeg[d]; MonoId vd=internMono({{v,-d}}); for(auto&x:grp) x.first=monoMul(x.first,vd); std::sort(grp.begin(),grp.end(),[](auto&a,auto&b){return a.first<b.first;}); Poly A=finish(std::move(grp)); Poly q,r; if(!pDivRem(A,P,q,r)) continue;
      std::vector<std::pair<MonoId,mpq_class>> keep=rest; for(auto&x:byDeg) if(x.first!=d) for(auto&y:x.second) keep.push_back(y); std::sort(keep.begin(),keep.end(),[](auto&a,auto&b){return a.first<b.first;}); Poly acc=finish(std::move(keep)); acc=addRaw(acc,mulRaw(reduce(q),d>1?finish({{internMono({{v,d-1}}),mpq_class(1)}}):pOne())); acc=addRaw(acc,mulRaw(reduce(r),finish({{internMono({{v,d}}),mpq_class(1)}}))); p=reduce(acc); ch=true; break; }
    if(!ch) return p; } return p; }
static bool isSquare(const mpz_class&z,mpz_class&r){ if(z<0) return false; r=sqrt(z); return r*r==z; }
// sqrt(P) for P>=0 (P non constant-negative). If P = c*m^2 with m monomial: returns sqrt(c)*|m| via needAbs/absArg.
static Poly sqrtConst(const mpq_class&c){ mpz_class n,d; mpq_class cc=c; cc.canonicalize(); if(isSquare(cc.get_num(),n)&&isSquare(cc.get_den(),d)) return pConst(mpq_class(n,d));
  // sqrt(a/b) = sqrt(a*b)/b ; pull small square factors out
  mpz_class ab=cc.get_num()*cc.get_den(); mpz_class out=1; for(long p=2;p<2000;p++){ mpz_class pp=p*p; while(mpz_divisible_p(ab.get_mpz_t(),pp.get_mpz_t())){ ab/=pp; out*=p; } }
  mpz_class r; mpq_class f(out,cc.get_den()); f.canonicalize(); if(isSquare(ab,r)) return pConst(f*mpq_class(r));
  Atom a=keyed(A_SQRT,"sqrt",{pConst(mpq_class(ab))}); return pScale(pAtom(a),f); }
Poly pSqrt(const Poly&p,bool&needAbs,Poly&absArg){ needAbs=false; mpq_class c; if(pIsConst(p,&c)) return sqrtConst(c);
  if(p->t.size()==1&&p->t[0].second>0){ auto f=g_monos[p->t[0].first].f; bool even=true; for(auto&x:f) if(x.second%2){even=false;break;} if(even){ for(auto&x:f)x.second/=2; Poly m=finish({{internMono(f),mpq_class(1)}}); needAbs=true; absArg=reduce(m); return sqrtConst(p->t[0].second); } }
  { // Laurent polynomial: clear negative powers with an even monomial and retry
    std::map<Atom,int> neg; for(auto&x:p->t) for(auto&f:g_monos[x.first].f) if(f.second<0) neg[f.first]=std::max(neg[f.first],(-f.second+1)/2);
    if(!neg.empty()&&p->t.size()>=3&&p->t.size()<=300){ std::vector<std::pair<Atom,int>> mf(neg.begin(),neg.end()); Poly m=finish({{internMono(mf),mpq_class(1)}}); Poly q=mulRaw(p,mulRaw(m,m)); bool hn=false; for(auto&x:q->t) if(g_monos[x.first].hasNeg) hn=true;
      if(!hn){ bool na; Poly ab; Poly r=pSqrt(q,na,ab); if(na){ for(auto&f:mf) f.second=-f.second; needAbs=true; absArg=mulRaw(ab,finish({{internMono(mf),mpq_class(1)}})); return r; } } } }
  // perfect square of a linear-ish polynomial: try p = k*(sum)^2 using leading monomials
  if(p->t.size()>=3 && p->t.size()<=300){ std::map<std::vector<std::pair<Atom,int>>,mpq_class,LexLess> A; for(auto&x:p->t) A[g_monos[x.first].f]=x.second; auto lead=*A.rbegin(); bool even=lead.second>0; for(auto&x:lead.first) if(x.second%2) even=false;
    if(even){ mpq_class k=lead.second; std::map<std::vector<std::pair<Atom,int>>,mpq_class,LexLess> R; for(auto&x:A) R[x.first]=x.second/k; auto lf=lead.first; for(auto&x:lf)x.second/=2; MonoId lm=internMono(lf); MonoId lmi=monoInvert(lm); Poly root=finish({{lm,mpq_class(1)}}); Poly target=pScale(p,1/k); bool ok=true; int steps=0;
      while(true){ Poly rem=addRaw(target,pNeg(mulRaw(root,root))); if(rem->t.empty()) break; if(++steps>60){ok=false;break;} std::map<std::vector<std::pair<Atom,int>>,mpq_class,LexLess> M; for(auto&x:rem->t) M[g_monos[x.first].f]=x.second; auto l=*M.rbegin(); MonoId tm=monoMul(internMono(l.first),lmi); if(g_monos[tm].hasNeg){ok=false;break;} Poly term=finish({{tm,mpq_class(l.second/2)}}); root=addRaw(root,term); if(root->t.size()>30){ok=false;break;} }
      if(ok){ needAbs=true; absArg=root; return sqrtConst(k); } } }
  // normalise the scale (positive content) so equal radicands share an atom
  mpq_class k=p->t[0].second; if(k<0) k=-k; Poly pn=pScale(p,1/k); Atom a=keyed(A_SQRT,"sqrt",{pn}); return pMul(sqrtConst(k),pAtom(a)); }
Poly pNameIfBig(const Poly&p){ if(p->t.size()<=g_nameLimit) return p; Atom a=keyed(A_NAMED,"def",{p}); return pAtom(a); }
void pAtoms(const Poly&p,std::unordered_set<Atom>&s){ for(auto&x:p->t) for(auto&f:g_monos[x.first].f) s.insert(f.first); }
std::string atomStr(Atom a){ auto&ai=g_atoms[a]; if(ai.kind==A_INPUT||ai.kind==A_FRESH) return ai.name; std::string s=ai.name+"("; for(size_t i=0;i<ai.args.size();i++){ if(i)s+=","; s+=pStr(ai.args[i],12);} return s+")"; }
std::string pStr(const Poly&p,size_t mx){ std::ostringstream o; if(p->t.empty()) return "0"; size_t n=0; for(auto&x:p->t){ if(n++) o<<" + "; if(n>mx){o<<"...("<<p->t.size()<<" terms)";break;} double d=mpqToDouble(x.second); o<<d; for(auto&f:g_monos[x.first].f){ o<<"*"<<atomStr(f.first); if(f.second!=1) o<<"^"<<f.second; } } return o.str(); }
double mpqToDouble(const mpq_class&q){ // nearest double
  double d=q.get_d(); // truncates
  mpq_class e=q-mpq_class(d); if(e==0) return d; double n=std::nextafter(d, sgn(e)>0?INFINITY:-INFINITY); if(std::isinf(n)) return d; mpq_class e2=mpq_class(n)-q; if(abs(e2)<abs(e)) return n; return d; }
mpq_class dblToMpq(double d){ return mpq_class(d); }
