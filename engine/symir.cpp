// symir: symbolic executor for LLVM bitcode with exact real arithmetic for doubles.
#include "term.h"
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <semaphore.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
using namespace llvm;
static double nowS(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }

// ------------------------------------------------------------------ values
enum VK:uint8_t { V_UNDEF, V_INT, V_REAL, V_SPEC, V_BOOL, V_AGG, V_BITS };
struct Val { VK k=V_UNDEF; uint8_t w=0; uint64_t i=0; std::shared_ptr<const void> p; };
typedef std::shared_ptr<const std::vector<Val>> AggP;
static uint64_t maskW(uint64_t v,unsigned w){ return w>=64?v:(v&((1ull<<w)-1)); }
static Val vInt(uint64_t v,unsigned w){ Val r; r.k=V_INT; r.w=w; r.i=maskW(v,w); return r; }
static Val vPtr(uint64_t v){ return vInt(v,64); }
static Val vReal(const Poly&p){ Val r; r.k=V_REAL; r.w=64; r.p=p; return r; }
static Val vSpec(int s){ Val r; r.k=V_SPEC; r.w=64; r.i=s; return r; } // 0 nan 1 +inf 2 -inf
static Val vUndef(){ return Val(); }
static Poly P(const Val&v){ return std::static_pointer_cast<const PolyData>(v.p); }
static CondP C(const Val&v){ return std::static_pointer_cast<const Cond>(v.p); }
static Val vBool(const CondP&c,unsigned w=1){ if(c->k==C_TRUE) return vInt(1,w); if(c->k==C_FALSE) return vInt(0,w); Val r; r.k=V_BOOL; r.w=w; r.p=c; return r; }
static Val vAgg(std::vector<Val> v){ Val r; r.k=V_AGG; r.p=std::make_shared<const std::vector<Val>>(std::move(v)); return r; }
static const std::vector<Val>& A(const Val&v){ return *static_cast<const std::vector<Val>*>(v.p.get()); }
static int64_t sx(const Val&v){ if(v.w>=64) return (int64_t)v.i; uint64_t m=1ull<<(v.w-1); return (int64_t)((v.i^m)-m); }

// simplest rational that rounds to the given double (Stern-Brocot), cached
static bool g_exactConst=false;
static mpq_class simplest(double d){ if(d==0) return 0; mpq_class x(d); if(g_exactConst||x.get_den()==1) return x; bool neg=d<0; double a=std::fabs(d);
  mpq_class lo=(mpq_class(a)+mpq_class(std::nextafter(a,0.0)))/2, hi=(mpq_class(a)+mpq_class(std::nextafter(a,INFINITY)))/2;
  // simplest fraction in (lo,hi)
  std::function<mpq_class(mpq_class,mpq_class)> sim=[&](mpq_class l,mpq_class h)->mpq_class{ mpz_class f=l.get_num()/l.get_den(); mpq_class fl(f); if(fl==l){ if(fl+1<h) return fl+1; mpq_class hh=1/(h-fl); mpz_class k=hh.get_num()/hh.get_den(); return fl+mpq_class(1)/mpq_class(k+1);} if(fl+1<h) return fl+1; mpq_class nl=1/(h-fl), nh=1/(l-fl); return fl+1/sim(nl,nh); };
  mpq_class r=sim(lo,hi); r.canonicalize(); if(mpqToDouble(r)!=a) return x; 
  // only accept clearly simpler values
  if(mpz_sizeinbase(r.get_den_mpz_t(),2)+mpz_sizeinbase(r.get_num_mpz_t(),2)>60) return x; return neg?mpq_class(-r):r; }
static Val fromDouble(double d){ if(std::isnan(d)) return vSpec(0); if(std::isinf(d)) return vSpec(d>0?1:2); return vReal(pConst(simplest(d))); }
static double specD(int s){ return s==0?NAN:s==1?INFINITY:-INFINITY; }

// ------------------------------------------------------------------ memory
struct Obj { uint32_t size=0; uint8_t kind=0; bool live=true; int owner=-1; std::string name; std::vector<uint8_t> b,st; std::vector<Val> slot; std::unordered_map<uint32_t,Val> small; };
// st: 0 undefined, 1 concrete byte, 2 part of a symbolic cell, 3 unaddressable (red zone)
static std::vector<Obj*> g_obj; // id -> object; address = id<<32
static std::vector<uint32_t> g_freeStackIds;
static uint64_t newObj(uint32_t size,int kind,const char*name=""){ g_obj.push_back(new Obj()); Obj*o=g_obj.back(); o->size=size; o->kind=kind; o->name=name; o->b.assign(size,0); o->st.assign(size,0); return (uint64_t)(g_obj.size()-1)<<32; }
static Obj*objOf(uint64_t a){ uint64_t id=a>>32; if(id==0||id>=g_obj.size()) return nullptr; return g_obj[id]; }

// ------------------------------------------------------------------ reporting / process tree
struct Shared { sem_t sem; std::atomic<uint64_t> paths,forks,insns,queries,viol,limited,asserts,trivial,unknownAsserts; std::atomic<int> stop; std::atomic<int> reachN; char reach[64][64]; std::atomic<int> violN; char violL[64][96]; std::atomic<int> unsN,cexTries,loopInst,violOut; std::atomic<double> soft; std::atomic<uint8_t> loopExit[8192]; std::atomic<uint64_t> seen[65536]; };
static Shared*g_sh; static int g_out=-1; static std::vector<pid_t> g_kids; static bool g_holdsToken=false; static double g_deadline=1e18; static uint64_t g_insns=0,g_maxInsns=4000000000ull; static uint64_t g_maxPaths=100000;
static std::vector<std::pair<std::string,int>> g_choices; static std::vector<std::pair<std::string,Atom>> g_inputs; static std::vector<std::pair<std::string,Val>> g_observed; static std::map<uint64_t,std::string> g_stream; static std::map<std::string,std::vector<Val>> g_files;
static std::string jesc(const std::string&s){ std::string o; for(char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n')o+="\\n"; else if((unsigned char)c<32) o+=' '; else o+=c;} return o; }
static void emit(const std::string&l){ std::string s=l+"\n"; if(write(g_out,s.data(),s.size())<0){} }
static std::string num(double d){ char b[64]; if(!std::isfinite(d)) return "null"; snprintf(b,64,"%.17g",d); return b; }
static void flushStats(){ std::ostringstream o; o<<"{\"type\":\"stats\",\"queries\":"<<g_ss.queries<<",\"sat\":"<<g_ss.sat<<",\"unsat\":"<<g_ss.unsat<<",\"unknown\":"<<g_ss.unknown<<",\"secs\":"<<g_ss.secs<<",\"maxsec\":"<<g_ss.maxsec<<",\"quick\":"<<g_ss.quick<<",\"cached\":"<<g_ss.cached<<",\"insns\":"<<g_insns<<"}"; emit(o.str()); g_ss=SolverStats(); g_insns=0; }
static void onAlarm(int){ g_sh->limited++; g_sh->paths++; for(pid_t p:g_kids){ int st; waitpid(p,&st,0); } if(g_holdsToken) sem_post(&g_sh->sem); _exit(0); }
static void armAlarm(){ double r=g_deadline-nowS(); if(r>1e6) return; alarm((unsigned)std::max(1.0,r+3)); }
static bool over(){ double t=nowS(), s=g_sh->soft; return g_sh->stop||t>g_deadline||(s>0&&t>s); }
[[noreturn]] static void endPath(const char*why){ alarm(0); g_sh->paths++; if(getenv("VP_VERBOSE")) fprintf(stderr,"[path end] %s insns=%lu pc=%zu\n",why,g_insns,g_pc.cs.size()); std::ostringstream o; o<<"{\"type\":\"path\",\"end\":\""<<jesc(why)<<"\",\"choices\":{"; for(size_t i=0;i<g_choices.size();i++) o<<(i?",":"")<<"\""<<g_choices[i].first<<"\":"<<g_choices[i].second; o<<"},\"pc\":"<<g_pc.cs.size()<<"}"; emit(o.str()); flushStats(); for(pid_t p:g_kids){ int st; waitpid(p,&st,0); } if(g_holdsToken) sem_post(&g_sh->sem); _exit(0); }
// returns true in the child
static bool forkPath(){ if(over()){ g_sh->limited++; endPath("budget"); }
  bool tok=sem_trywait(&g_sh->sem)==0; fflush(stderr); pid_t pid=fork(); if(pid<0){ if(tok) sem_post(&g_sh->sem); g_sh->limited++; endPath("fork-failed"); }
  if(pid==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); armAlarm(); g_kids.clear(); g_holdsToken=tok; g_ss=SolverStats(); g_insns=0; g_sh->forks++; return true; }
  if(tok) g_kids.push_back(pid); else { int st; waitpid(pid,&st,0); }
  return false; }
static std::string modelJson(Model&m){ std::ostringstream o; o<<"{"; bool first=true; for(auto&x:g_inputs){ double d=0; auto it=m.v.find(x.second); if(it!=m.v.end()) d=it->second; else { AtomInfo&ai=g_atoms[x.second]; double lo=ai.hasLo?mpqToDouble(ai.lo):0, hi=ai.hasHi?mpqToDouble(ai.hi):lo; d= (lo<=0&&hi>=0)?(hi>=1?0.5:hi/2):(lo+hi)/2; m.v[x.second]=d; } o<<(first?"":",")<<"\""<<x.first<<"\":"<<num(d); first=false; } o<<"}"; return o.str(); }
static std::string choicesJson(){ std::ostringstream o; o<<"{"; for(size_t i=0;i<g_choices.size();i++) o<<(i?",":"")<<"\""<<g_choices[i].first<<"\":"<<g_choices[i].second; o<<"}"; return o.str(); }
static std::string whereAmI();
static std::string observedJson(const Model&m){ std::ostringstream o; o<<"{"; bool f=true; for(auto&x:g_observed){ double d= x.second.k==V_REAL?evalPoly(P(x.second),m): x.second.k==V_SPEC?specD(x.second.i):NAN; o<<(f?"":",")<<"\""<<x.first<<"\":"<<num(d); f=false; } o<<"}"; return o.str(); }
static int countLabel(std::atomic<int>&n,char(*tab)[96],const std::string&l){ int c=n; int k=0; for(int i=0;i<c&&i<64;i++) if(!strncmp(tab[i],l.c_str(),95)) k++; int i=n++; if(i<64) { strncpy(tab[i],l.c_str(),95); } return k; }
static bool g_quietEvents=false;
static void reportViolation(const std::string&label,const std::string&kind,const std::string&detail,Model&m,const char*status){ if(!strcmp(status,"violation")&&++g_sh->violOut==8) g_sh->soft=nowS()+40; // enough counterexamples: finish soon
  std::ostringstream o; std::string mj=modelJson(m); o<<"{\"type\":\""<<status<<"\",\"label\":\""<<jesc(label)<<"\",\"kind\":\""<<kind<<"\",\"detail\":\""<<jesc(detail)<<"\",\"where\":\""<<jesc(whereAmI())<<"\",\"choices\":"<<choicesJson()<<",\"inputs\":"<<mj<<",\"observed\":"<<observedJson(m)<<"}"; emit(o.str()); }
static bool g_havocked=false, g_loopHavoc=false; // path contains abstracted values
// an event on the current path (memory error etc.); path ends
[[noreturn]] static void event(const std::string&kind,const std::string&detail){ Model m; SolveR r=satWith(cTrue(),&m,g_assertBudget,"event"); std::string lab=kind; g_sh->viol++; int c=countLabel(g_sh->violN,g_sh->violL,kind+detail.substr(0,60)); if(c<4) { if(r==S_UNSAT) emit("{\"type\":\"infeasible\",\"label\":\""+jesc(kind)+"\"}"); else reportViolation(kind,kind,detail,m,r==S_SAT?"violation":"unknown"); } endPath(("event "+kind).c_str()); }
[[noreturn]] static void unsupported(const std::string&what){ emit("{\"type\":\"unsupported\",\"what\":\""+jesc(what)+"\",\"where\":\""+jesc(whereAmI())+"\"}"); endPath(("unsupported "+what).c_str()); }

// decide a condition, forking if both feasible. returns truth value on this path.
static bool g_cheap=false; static double brB(){ return g_cheap?std::min(0.3,g_branchBudget):g_branchBudget; }
static bool decide(const CondP&c,const char*why){ int q=quick(c); if(q>=0){ g_ss.quick++; return q==1; }
  SolveR t=satWith(c,nullptr,brB(),why); if(t==S_UNSAT){ g_pc.add(cNot(c)); return false; }
  CondP n=cNot(c); SolveR f=satWith(n,nullptr,brB(),why); if(f==S_UNSAT){ g_pc.add(c); return true; }
  if(getenv("VP_VERBOSE")) fprintf(stderr,"[fork] %s at %s : %s\n",why,whereAmI().c_str(),cStr(c).substr(0,300).c_str());
  if(forkPath()){ g_pc.add(c); return true; } g_pc.add(n); return false; }

// ------------------------------------------------------------------ real operations
static Poly rabs(const Poly&p,const char*why){ int m=signMask(p); if(!(m&1)) return p; if(!(m&4)) return pNeg(p); if(decide(cRel(R_LT,p),why)) return pNeg(p); return p; }
static Val rAdd(const Val&a,const Val&b,bool sub){ if(a.k==V_UNDEF||b.k==V_UNDEF) return vUndef(); if(a.k==V_SPEC||b.k==V_SPEC){ double x=a.k==V_SPEC?specD(a.i):0,y=b.k==V_SPEC?specD(b.i):0; return fromDouble(sub?x-y:x+y); } return vReal(pNameIfBig(sub?pSub(P(a),P(b)):pAdd(P(a),P(b)))); }
static int signDecide(const Poly&p,const char*why){ int m=signMask(p); if(m==4) return 1; if(m==2) return 0; if(m==1) return -1; if(decide(cRel(R_EQ,p),why)) return 0; return decide(cRel(R_LT,p),why)?-1:1; }
static Val rMul(const Val&a,const Val&b){ if(a.k==V_UNDEF||b.k==V_UNDEF) return vUndef(); if(a.k==V_SPEC||b.k==V_SPEC){ double x=a.k==V_SPEC?specD(a.i):signDecide(P(a),"inf*x"),y=b.k==V_SPEC?specD(b.i):signDecide(P(b),"inf*x"); return fromDouble(x*y); } return vReal(pNameIfBig(pMul(P(a),P(b)))); }
static bool inAbstractLoop();
static Val rDiv(const Val&a,const Val&b){ if(a.k==V_UNDEF||b.k==V_UNDEF) return vUndef(); if(a.k==V_SPEC||b.k==V_SPEC){ if(b.k==V_SPEC){ if(b.i==0||a.k==V_SPEC) return vSpec(0); return vReal(pZero()); } if(a.i==0) return vSpec(0); int s=signDecide(P(b),"inf/x"); double x=specD(a.i); return fromDouble(s<0?-x:x); }
  Poly d=P(b); int m=signMask(d); bool zero=false; if(m&2){ if(m!=2&&inAbstractLoop()) g_pc.add(cRel(R_NE,d)); else zero= m==2?true:decide(cRel(R_EQ,d),"div0"); }
  if(zero){ int s=signDecide(P(a),"x/0"); return s==0?vSpec(0):vSpec(s>0?1:2); }
  return vReal(pNameIfBig(pDiv(P(a),d))); }
static Val rNeg(const Val&a){ if(a.k==V_UNDEF) return a; if(a.k==V_SPEC) return fromDouble(-specD(a.i)); return vReal(pNeg(P(a))); }
static Val rSqrt(const Val&a){ if(a.k==V_UNDEF) return a; if(a.k==V_SPEC) return a.i==2?vSpec(0):a; Poly p=P(a); int m=signMask(p); if(m&1){ if(m==1||decide(cRel(R_LT,p),"sqrt-neg")) return vSpec(0); } if(pIsZero(p)) return a; bool na; Poly ab; Poly r=pSqrt(p,na,ab); if(na) r=pMul(r,rabs(ab,"sqrt-abs")); return vReal(r); }
static std::map<Atom,Poly> g_absOf; // |x| inside abstracted loops: compared without choosing the sign of x
static bool absAtom(const Val&v,Poly&x){ if(g_absOf.empty()||v.k!=V_REAL) return false; Poly p=P(v); if(p->t.size()!=1||p->t[0].second!=1) return false; auto&m=g_monos[p->t[0].first].f; if(m.size()!=1||m[0].second!=1) return false; auto it=g_absOf.find(m[0].first); if(it==g_absOf.end()) return false; x=it->second; return true; }
static Val vFcmp(CmpInst::Predicate pr,const Val&a,const Val&b){ if(a.k==V_UNDEF||b.k==V_UNDEF) return vUndef();
  { Poly x,y; if(a.k==V_REAL&&b.k==V_REAL&&absAtom(a,x)&&!absAtom(b,y)){ Poly c=P(b); auto lt=[&](Rel r){ return cAnd(cRel(r,pSub(x,c)),cRel(r,pNeg(pAdd(x,c)))); }; switch(pr){ case CmpInst::FCMP_OLT:case CmpInst::FCMP_ULT: return vBool(lt(R_LT)); case CmpInst::FCMP_OLE:case CmpInst::FCMP_ULE: return vBool(lt(R_LE)); case CmpInst::FCMP_OGT:case CmpInst::FCMP_UGT: return vBool(cNot(lt(R_LE))); case CmpInst::FCMP_OGE:case CmpInst::FCMP_UGE: return vBool(cNot(lt(R_LT))); default: break; } } }
  if(a.k==V_SPEC||b.k==V_SPEC){ bool un=(a.k==V_SPEC&&a.i==0)||(b.k==V_SPEC&&b.i==0); double x=a.k==V_SPEC?specD(a.i):0,y=b.k==V_SPEC?specD(b.i):0; bool lt=x<y,eq=x==y,gt=x>y; bool r=false; switch(pr){ case CmpInst::FCMP_OEQ:r=!un&&eq;break;case CmpInst::FCMP_OGT:r=!un&&gt;break;case CmpInst::FCMP_OGE:r=!un&&(gt||eq);break;case CmpInst::FCMP_OLT:r=!un&&lt;break;case CmpInst::FCMP_OLE:r=!un&&(lt||eq);break;case CmpInst::FCMP_ONE:r=!un&&!eq;break;case CmpInst::FCMP_ORD:r=!un;break;case CmpInst::FCMP_UNO:r=un;break;case CmpInst::FCMP_UEQ:r=un||eq;break;case CmpInst::FCMP_UGT:r=un||gt;break;case CmpInst::FCMP_UGE:r=un||gt||eq;break;case CmpInst::FCMP_ULT:r=un||lt;break;case CmpInst::FCMP_ULE:r=un||lt||eq;break;case CmpInst::FCMP_UNE:r=un||!eq;break;case CmpInst::FCMP_TRUE:r=true;break;default:break;} return vInt(r,1); }
  Poly d=pSub(P(a),P(b)); switch(pr){ case CmpInst::FCMP_OEQ:case CmpInst::FCMP_UEQ:return vBool(cRel(R_EQ,d)); case CmpInst::FCMP_ONE:case CmpInst::FCMP_UNE:return vBool(cRel(R_NE,d)); case CmpInst::FCMP_OLT:case CmpInst::FCMP_ULT:return vBool(cRel(R_LT,d)); case CmpInst::FCMP_OLE:case CmpInst::FCMP_ULE:return vBool(cRel(R_LE,d)); case CmpInst::FCMP_OGT:case CmpInst::FCMP_UGT:return vBool(cRel(R_LT,pNeg(d))); case CmpInst::FCMP_OGE:case CmpInst::FCMP_UGE:return vBool(cRel(R_LE,pNeg(d))); case CmpInst::FCMP_ORD:case CmpInst::FCMP_TRUE:return vInt(1,1); default:return vInt(0,1); } }
// integer part choice: mode 0 floor, 1 ceil, 2 trunc, 3 round
static mpz_class zfloor(const mpq_class&q){ mpz_class r; mpz_fdiv_q(r.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return r; }
static bool intPart(const Val&a,int mode,mpz_class&out){ Poly p=P(a); mpq_class c; if(pIsConst(p,&c)){ // treat values within 1e-12 of an integer as they are (exact)
    if(mode==0) out=zfloor(c); else if(mode==1) out=-zfloor(-c); else if(mode==2) out= c>=0?zfloor(c):mpz_class(-zfloor(-c)); else { out= c>=0?zfloor(c+mpq_class(1,2)):mpz_class(-zfloor(-c+mpq_class(1,2))); } return true; }
  if(mode==2){ int m=signMask(p); if(!(m&1)) mode=0; else if(!(m&4)) mode=1; else mode=decide(cRel(R_LT,p),"trunc-sign")?1:0; }
  if(mode==1){ mpz_class o; Val n=vReal(pNeg(p)); intPart(n,0,o); out=-o; return true; }
  if(mode==3){ Val h=vReal(pAdd(p,pConst(mpq_class(1,2)))); return intPart(h,0,out); }
  Iv iv=pInterval(p); mpz_class lo,hi; bool have=iv.hl&&iv.hh; if(have){ lo=zfloor(iv.lo); hi=zfloor(iv.hi); if(iv.hs&&mpq_class(hi)==iv.hi) hi-=1; }
  if(!have||hi-lo>64){ // ask for a model and walk outwards
    Model m; SolveR r=satWith(cTrue(),&m,g_assertBudget,"floor-model"); double v=evalPoly(p,m); mpz_class k((long)std::floor(v)); (void)r; int span=0; while(true){ CondP in=cAnd(cRel(R_LE,pSub(pConst(mpq_class(k)),p)),cRel(R_LT,pSub(p,pConst(mpq_class(k+1))))); if(decide(in,"floor")){ out=k; return true; } if(decide(cRel(R_LT,pSub(p,pConst(mpq_class(k)))),"floor-dir")) k-=1; else k+=1; if(++span>40) unsupported("floor of an unbounded term"); } }
  for(mpz_class k=lo;k<hi;k++){ if(decide(cRel(R_LT,pSub(p,pConst(mpq_class(k+1)))),"floor")){ out=k; return true; } }
  out=hi; return true; }

// ------------------------------------------------------------------ program representation
struct Opnd { int reg=-1; Val c; };
struct Ins { unsigned opc; int dst=-1; std::vector<Opnd> ops; Instruction*I; uint64_t aux=0; int64_t off=0; std::vector<std::pair<int,int64_t>> gep; std::vector<int> succ; int tsize=0; Type*ty=nullptr; uint8_t tk=0; };
// a loop iterated until a real-valued convergence test passes (Newton iterations); with vp_havoc_loops it is
// executed as: exact first iteration | arbitrary state -> one iteration -> arbitrary state with what that iteration establishes -> last iteration
struct HSlot { bool ref; int reg; bool real; };
struct HLoop { int hdr; std::set<int> body,canExit,canLatch; std::vector<HSlot> slots,counters; };
struct LInst { HLoop*L; int mode; int inst; std::shared_ptr<PcSnap> snap; };
struct FuncInfo { Function*F; std::vector<HLoop> loops; bool hasIter=false; int nregs=0; std::vector<std::vector<Ins>> bb; std::map<const BasicBlock*,int> bbi; uint32_t frameSize=0; std::vector<std::pair<uint32_t,uint32_t>> locals; int nargs=0; };
struct Frame { FuncInfo*f; std::vector<Val> regs; int bb=0,ip=0,prev=-1; uint64_t stack=0; int retReg=-1; int pend=-1; std::vector<uint64_t> dyn; std::vector<LInst> li; };
struct Thread { std::vector<Frame> st; int id=0; bool barrier=false,done=false; int crit=0; std::map<uint64_t,int> dispatch; };
static LLVMContext g_ctx; static std::unique_ptr<Module> g_mod; static const DataLayout*g_dl; static std::unordered_map<const Value*,uint64_t> g_gaddr; static std::unordered_map<uint64_t,Function*> g_faddr; static std::unordered_map<const Function*,std::unique_ptr<FuncInfo>> g_fi;
static Thread*g_th=nullptr; static std::set<std::string> g_called; static int g_nthreads=1; static int g_pushThreads=0; static bool g_inPar=false; static std::vector<int> g_order; static std::vector<uint64_t> g_ioStub;
static std::string whereAmI(){ std::string s; if(!g_th) return "?"; int n=0; for(int i=(int)g_th->st.size()-1;i>=0&&n<6;i--){ Frame&f=g_th->st[i]; if(f.bb>=(int)f.f->bb.size()) continue; int ip=std::max(0,f.ip-1); if(ip>=(int)f.f->bb[f.bb].size()) continue; Instruction*I=f.f->bb[f.bb][ip].I; if(auto&dl=I->getDebugLoc()){ std::string fn=dl->getFilename().str(); if(fn.find("/repo/")!=std::string::npos||fn.find("harness")!=std::string::npos||n==0){ size_t k=fn.rfind('/'); s+=(n?" < ":"")+fn.substr(k==std::string::npos?0:k+1)+":"+std::to_string(dl.getLine()); n++; } } else if(n==0){ s+=f.f->F->getName().str().substr(0,60); n++; } } return s; }

// race detection
struct Acc { uint8_t r=0,w=0; uint8_t rc=0,wc=0; };
static std::vector<std::unordered_map<uint64_t,Acc>> g_acc; static bool g_raceOn=false;
static void logAcc(uint64_t a,unsigned n,bool wr){ if(!g_raceOn||n==0) return; Obj*o=objOf(a); if(!o||o->owner==g_th->id+1) return; int T=g_acc.size(); for(unsigned i=0;i<n;){ uint64_t k=(a+i)>>3; unsigned o0=(a+i)&7, cnt=std::min<unsigned>(8-o0,n-i); uint8_t m=((1u<<cnt)-1)<<o0; 
    for(int t=0;t<T;t++) if(t!=g_th->id){ auto it=g_acc[t].find(k); if(it!=g_acc[t].end()){ Acc&q=it->second; bool race=false; if(wr) race=((q.r|q.w)&m)|| (!g_th->crit&&((q.rc|q.wc)&m)); else race=(q.w&m)||(!g_th->crit&&(q.wc&m)); if(race) event("race","data race on "+o->name+"+"+std::to_string((uint32_t)a+i)+" size "+std::to_string(n)+(wr?" write":" read")); } }
    Acc&q=g_acc[g_th->id][k]; if(g_th->crit){ if(wr) q.wc|=m; else q.rc|=m; } else { if(wr) q.w|=m; else q.r|=m; } i+=cnt; } }

static void chk(uint64_t a,unsigned n,const char*what){ Obj*o=objOf(a); if(!o){ event("memory",std::string(what)+(a<4096?" through a null pointer":" through a wild pointer")); } uint64_t off=(uint32_t)a; if(!o->live) event("memory",std::string(what)+" after free of "+o->name); if(off+n>o->size) event("memory",std::string(what)+" out of bounds: offset "+std::to_string(off)+" size "+std::to_string(n)+" object "+o->name+" of "+std::to_string(o->size)+" bytes"); for(unsigned i=0;i<n;i++) if(o->st[off+i]==3) event("memory",std::string(what)+" out of bounds of a local in "+o->name); }
static void killCells(Obj*o,uint32_t off,unsigned n){ // symbolic cells overlapping [off,off+n) are dropped; other bytes become undefined
  if(o->slot.size()){ uint32_t s0=off/8,s1=(off+n-1)/8; for(uint32_t s=s0;s<=s1&&s<o->slot.size();s++) if(o->slot[s].k!=V_UNDEF){ o->slot[s]=Val(); for(uint32_t k=s*8;k<s*8+8&&k<o->size;k++) if(o->st[k]==2) o->st[k]=0; } }
  if(!o->small.empty()){ for(unsigned i=0;i<n;i++){ auto it=o->small.find(off+i); if(it!=o->small.end()){ unsigned w=std::max(1,(int)it->second.w/8); o->small.erase(it); for(unsigned k=0;k<w;k++) if(o->st[off+i+k]==2) o->st[off+i+k]=0; } } } }
static void stBytes(uint64_t a,const uint8_t*src,unsigned n){ Obj*o=objOf(a); uint32_t off=(uint32_t)a; killCells(o,off,n); memcpy(&o->b[off],src,n); memset(&o->st[off],1,n); }
static void storeVal(uint64_t a,const Val&v,unsigned n){ chk(a,n,"write"); logAcc(a,n,true); Obj*o=objOf(a); uint32_t off=(uint32_t)a;
  switch(v.k){ case V_UNDEF: killCells(o,off,n); memset(&o->st[off],0,n); return;
    case V_INT: { uint64_t x=v.i; stBytes(a,(uint8_t*)&x,n>8?8:n); return; }
    case V_SPEC:{ double d=specD(v.i); stBytes(a,(uint8_t*)&d,8); return; }
    case V_REAL: case V_BITS: if(n!=8){ unsupported("store of real with size "+std::to_string(n)); } if(off%8){ unsupported("unaligned real store"); } if(o->slot.empty()) o->slot.resize((o->size+7)/8); if(o->small.size()) killCells(o,off,8); { Val r=v; r.k=V_REAL; r.w=64; o->slot[off/8]=r; } memset(&o->st[off],2,8); return;
    case V_BOOL: killCells(o,off,n); { Val r=v; r.w=n*8; o->small[off]=r; } memset(&o->st[off],2,n); return;
    default: unsupported("store of aggregate value"); } }
enum TK:uint8_t { T_INT, T_DBL, T_PTR, T_AGG, T_FLT, T_OTHER };
static Val concretize(const Val&v,const char*why){ if(v.k==V_BOOL){ bool b=decide(C(v),why); return vInt(b,v.w); } return v; }
static Val realBits(const Val&v){ // concrete bits of a constant real
  mpq_class c; if(v.k==V_REAL&&pIsConst(P(v),&c)){ double d=mpqToDouble(c); uint64_t x; memcpy(&x,&d,8); return vInt(x,64); } if(v.k==V_SPEC){ double d=specD(v.i); uint64_t x; memcpy(&x,&d,8); return vInt(x,64);} unsupported("bits of a symbolic real"); }
static Val loadVal(uint64_t a,unsigned n,TK tk){ chk(a,n,"read"); logAcc(a,n,false); Obj*o=objOf(a); uint32_t off=(uint32_t)a; uint8_t s=o->st[off];
  if(s==2){ if(off%8==0&&o->slot.size()&&o->slot[off/8].k!=V_UNDEF){ Val v=o->slot[off/8]; if(n==8){ if(tk==T_DBL) return v; mpq_class c; if(pIsConst(P(v),&c)) return realBits(v); Val r=v; r.k=V_BITS; return r; } Val b=realBits(v); return vInt(b.i,n*8); }
    auto it=o->small.find(off); if(it!=o->small.end()&&it->second.w==n*8) return it->second; if(it!=o->small.end()){ Val c=concretize(it->second,"partial bool"); storeVal(a,c,c.w/8); return loadVal(a,n,tk); }
    if(n<8&&o->slot.size()&&o->slot[off/8].k!=V_UNDEF){ Val b=realBits(o->slot[off/8]); return vInt(b.i>>(8*(off%8)),n*8); }
    unsupported("partial load of symbolic cell"); }
  for(unsigned i=0;i<n;i++){ if(o->st[off+i]==0) return vUndef(); if(o->st[off+i]==2){ // mixed
      for(unsigned k=0;k<n;k++){ auto it=o->small.find(off+k); if(it!=o->small.end()){ Val c=concretize(it->second,"mixed bool"); storeVal(a+k,c,c.w/8);} } if(o->st[off+i]==2) unsupported("mixed load"); } }
  uint64_t x=0; if(n<=8) memcpy(&x,&o->b[off],n); else unsupported("wide load"); if(tk==T_DBL){ double d; memcpy(&d,&x,8); return fromDouble(d); } if(tk==T_FLT){ float f; memcpy(&f,&x,4); return fromDouble(f); } return vInt(x,n*8); }
static void memCopy(uint64_t d,uint64_t s,uint64_t n){ if(!n) return; chk(s,n,"read"); chk(d,n,"write"); logAcc(s,n,false); logAcc(d,n,true); Obj*so=objOf(s),*dO=objOf(d); uint32_t a=(uint32_t)s,b=(uint32_t)d;
  std::vector<uint8_t> by(so->b.begin()+a,so->b.begin()+a+n), st(so->st.begin()+a,so->st.begin()+a+n); std::vector<std::pair<uint32_t,Val>> cells; if(so->slot.size()) for(uint32_t k=(a+7)/8;k*8+8<=a+n&&k<so->slot.size();k++) if(so->slot[k].k!=V_UNDEF) cells.push_back({k*8-a,so->slot[k]}); std::vector<std::pair<uint32_t,Val>> sm; for(auto&x:so->small) if(x.first>=a&&x.first<a+n) sm.push_back({x.first-a,x.second});
  killCells(dO,b,n); memcpy(&dO->b[b],by.data(),n); for(uint64_t i=0;i<n;i++) dO->st[b+i]= st[i]==2?0:st[i];
  for(auto&c:cells){ if((b+c.first)%8) unsupported("misaligned real copy"); if(dO->slot.empty()) dO->slot.resize((dO->size+7)/8); dO->slot[(b+c.first)/8]=c.second; memset(&dO->st[b+c.first],2,8); }
  for(auto&c:sm){ dO->small[b+c.first]=c.second; memset(&dO->st[b+c.first],2,std::max(1,(int)c.second.w/8)); } }
static void memSet(uint64_t d,uint8_t v,uint64_t n){ if(!n) return; chk(d,n,"write"); logAcc(d,n,true); Obj*o=objOf(d); uint32_t off=(uint32_t)d; killCells(o,off,n); memset(&o->b[off],v,n); memset(&o->st[off],1,n); }
static std::string cstr(uint64_t a){ std::string s; for(int i=0;i<4096;i++){ Val v=loadVal(a+i,1,T_INT); if(v.k!=V_INT) break; if(!v.i) break; s+=(char)v.i; } return s; }

// ------------------------------------------------------------------ constants
static TK tkOf(Type*t){ if(t->isDoubleTy()) return T_DBL; if(t->isFloatTy()) return T_FLT; if(t->isPointerTy()) return T_PTR; if(t->isIntegerTy()) return T_INT; if(t->isStructTy()||t->isArrayTy()||t->isVectorTy()) return T_AGG; return T_OTHER; }
static uint64_t gaddr(const GlobalValue*g); static Val constVal(const Constant*c);
static int64_t gepConst(const GEPOperator*g){ APInt off(64,0); if(!g->accumulateConstantOffset(*g_dl,off)) unsupported("gep const"); return off.getSExtValue(); }
static Val constVal(const Constant*c){ Type*t=c->getType();
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64) return vInt(ci->getValue().getLoBits(64).getZExtValue(),64); return vInt(ci->getZExtValue(),ci->getBitWidth()); }
  if(auto*cf=dyn_cast<ConstantFP>(c)){ if(t->isDoubleTy()) return fromDouble(cf->getValueAPF().convertToDouble()); if(t->isFloatTy()) return fromDouble(cf->getValueAPF().convertToFloat()); bool li; APFloat f=cf->getValueAPF(); f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); return fromDouble(f.convertToDouble()); }
  if(isa<ConstantPointerNull>(c)) return vPtr(0);
  if(isa<UndefValue>(c)){ if(tkOf(t)==T_AGG){ std::vector<Val> v; unsigned n=t->isStructTy()?t->getStructNumElements():t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); for(unsigned i=0;i<n;i++) v.push_back(constVal(UndefValue::get(t->isStructTy()?t->getStructElementType(i):t->getContainedType(0)))); return vAgg(v);} return vUndef(); }
  if(isa<ConstantAggregateZero>(c)||isa<ConstantAggregate>(c)||isa<ConstantDataSequential>(c)){ std::vector<Val> v; unsigned n=t->isStructTy()?t->getStructNumElements():t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); for(unsigned i=0;i<n;i++) v.push_back(constVal(c->getAggregateElement(i))); return vAgg(v); }
  if(auto*g=dyn_cast<GlobalValue>(c)) return vPtr(gaddr(g));
  if(auto*ce=dyn_cast<ConstantExpr>(c)){ switch(ce->getOpcode()){ case Instruction::GetElementPtr:{ Val b=constVal(ce->getOperand(0)); return vPtr(b.i+gepConst(cast<GEPOperator>(ce))); } case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val v=constVal(ce->getOperand(0)); unsigned w=t->isPointerTy()?64:t->getIntegerBitWidth(); return vInt(v.i,w);} case Instruction::Add:return vInt(constVal(ce->getOperand(0)).i+constVal(ce->getOperand(1)).i,t->getIntegerBitWidth()); case Instruction::Sub:return vInt(constVal(ce->getOperand(0)).i-constVal(ce->getOperand(1)).i,t->getIntegerBitWidth()); case Instruction::Trunc: return vInt(constVal(ce->getOperand(0)).i,t->getIntegerBitWidth()); default: unsupported("constexpr"); } }
  unsupported("constant kind"); }
static void initMem(uint64_t a,const Constant*c){ Type*t=c->getType(); uint64_t n=g_dl->getTypeAllocSize(t); if(isa<UndefValue>(c)) return; if(isa<ConstantAggregateZero>(c)||c->isNullValue()){ Obj*o=objOf(a); if(n){ memset(&o->b[(uint32_t)a],0,n); memset(&o->st[(uint32_t)a],1,n);} return; }
  if(auto*ds=dyn_cast<ConstantDataSequential>(c)){ StringRef raw=ds->getRawDataValues(); stBytes(a,(const uint8_t*)raw.data(),raw.size()); return; }
  if(isa<ConstantArray>(c)){ uint64_t es=g_dl->getTypeAllocSize(t->getArrayElementType()); for(unsigned i=0;i<t->getArrayNumElements();i++) initMem(a+i*es,c->getAggregateElement(i)); return; }
  if(isa<ConstantStruct>(c)){ auto*sl=g_dl->getStructLayout(cast<StructType>(t)); for(unsigned i=0;i<t->getStructNumElements();i++) initMem(a+sl->getElementOffset(i),c->getAggregateElement(i)); return; }
  Val v=constVal(c); if(v.k==V_REAL||v.k==V_SPEC){ if(t->isFloatTy()){ float f=mpqToDouble([&]{mpq_class q; pIsConst(P(v),&q); return q;}()); stBytes(a,(uint8_t*)&f,4); return; } if(t->isDoubleTy()){ double d=cast<ConstantFP>(c)->getValueAPF().convertToDouble(); stBytes(a,(uint8_t*)&d,8);} return; } uint64_t x=v.i; stBytes(a,(uint8_t*)&x,std::min<uint64_t>(n,8)); }
static uint64_t gaddr(const GlobalValue*g){ auto it=g_gaddr.find(g); if(it!=g_gaddr.end()) return it->second; if(auto*f=dyn_cast<Function>(g)){ uint64_t a=newObj(0,3,f->getName().str().c_str()); g_gaddr[g]=a; g_faddr[a]=const_cast<Function*>(f); return a; }
  if(auto*al=dyn_cast<GlobalAlias>(g)){ uint64_t a=constVal(al->getAliasee()).i; g_gaddr[g]=a; return a; }
  auto*gv=cast<GlobalVariable>(g); uint64_t n=gv->getValueType()->isSized()?(uint64_t)g_dl->getTypeAllocSize(gv->getValueType()):8; if(gv->isDeclaration()) n=std::max<uint64_t>(n,4096); uint64_t a=newObj(n,2,g->getName().str().c_str()); g_gaddr[g]=a; if(gv->hasInitializer()) initMem(a,gv->getInitializer()); else { memset(objOf(a)->st.data(),1,n); } return a; }

// ------------------------------------------------------------------ function preparation
static bool userFunction(const std::string&n){ if(n.find(".omp_outlined")!=std::string::npos) return false; return n.compare(0,15,"_ZN10Simulation")==0||(n.compare(0,2,"_Z")==0&&n.size()>2&&isdigit(n[2]))||n.compare(0,4,"_ZL1")==0||n.compare(0,4,"_ZL2")==0; }
static bool floatDerived(const Value*v,int d=0){ if(d>6) return false; if(isa<FCmpInst>(v)) return true; auto*i=dyn_cast<Instruction>(v); if(!i||isa<LoadInst>(i)||isa<CallBase>(i)) return false; for(auto&o:i->operands()) if(floatDerived(o,d+1)) return true; return false; }
static void findLoops(Function*F,FuncInfo&fi,std::unordered_map<const Value*,int>&reg){ DominatorTree dt(*F); LoopInfo li(dt); 
  for(Loop*L:li.getLoopsInPreorder()){ bool inner=false; for(auto&h:fi.loops) if(h.body.count(fi.bbi[L->getHeader()])) inner=true; if(inner) continue; SmallVector<BasicBlock*,8> ex; L->getExitingBlocks(ex); int nf=0,nb=0; for(auto*b:ex) if(auto*br=dyn_cast<BranchInst>(b->getTerminator())) if(br->isConditional()){ nb++; if(floatDerived(br->getCondition())) nf++; } for(auto*b:ex) if(isa<SwitchInst>(b->getTerminator())) nb++; for(auto*b:L->blocks()) for(auto&I:*b) if(isa<FCmpInst>(I)) nf++; if(!nf||nb<2) continue;
    HLoop h; h.hdr=fi.bbi[L->getHeader()]; bool sim=false; std::set<const Value*> slotSw; std::set<const Value*> bodyLocal; for(auto*b:L->blocks()) for(auto&I:*b) if(auto*ii=dyn_cast<IntrinsicInst>(&I)) if(ii->getIntrinsicID()==Intrinsic::lifetime_start) bodyLocal.insert(ii->getArgOperand(1)->stripPointerCasts()); std::set<std::pair<bool,const Value*>> seen; for(auto*b:L->blocks()){ h.body.insert(fi.bbi[b]); for(auto&I:*b){ if(auto*cb=dyn_cast<CallBase>(&I)) if(auto*cf=cb->getCalledFunction()) if(cf->getName().starts_with("_ZN10Simulation")) sim=true; auto*st=dyn_cast<StoreInst>(&I); if(!st) continue; const Value*p=st->getPointerOperand(); bool ref=false; if(auto*ld=dyn_cast<LoadInst>(p)){ ref=true; p=ld->getPointerOperand(); } if(!isa<AllocaInst>(p)||!reg.count(p)||bodyLocal.count(p)) continue; Type*vt=st->getValueOperand()->getType(); if(vt->isDoubleTy()){ if(seen.insert({ref,p}).second) h.slots.push_back({ref,reg[p],true}); }
        else if(vt->isIntegerTy()&&!ref) if(auto*bo=dyn_cast<BinaryOperator>(st->getValueOperand())) if(bo->getOpcode()==Instruction::Add&&isa<ConstantInt>(bo->getOperand(1))) if(auto*l2=dyn_cast<LoadInst>(bo->getOperand(0))) if(l2->getPointerOperand()==p) h.counters.push_back({false,reg[p],false}); } }
    if(sim||h.slots.empty()||h.counters.empty()) continue; if(getenv("VP_VERBOSE")) fprintf(stderr,"[loop] %s header %d slots %zu counters %zu line %u\n",F->getName().str().c_str(),h.hdr,h.slots.size(),h.counters.size(),L->getStartLoc()?L->getStartLoc().getLine():0); fi.hasIter=true;
    // which blocks can still leave the loop, or start another iteration; break statements pass through a switch on a slot holding a constant
    auto walk=[&](BasicBlock*start,bool&ex_,bool&la){ std::set<std::pair<BasicBlock*,int64_t>> vis; std::vector<std::pair<BasicBlock*,int64_t>> wl={{start,-1}}; ex_=la=false; while(!wl.empty()){ auto [b,v]=wl.back(); wl.pop_back(); if(!vis.insert({b,v}).second) continue; auto*sw=dyn_cast<SwitchInst>(b->getTerminator()); for(auto&I:*b) if(auto*st=dyn_cast<StoreInst>(&I)) if(st->getValueOperand()->getType()->isIntegerTy(32)&&slotSw.count(st->getPointerOperand())){ auto*ci=dyn_cast<ConstantInt>(st->getValueOperand()); v=ci?(int64_t)ci->getZExtValue():-1; }
        std::vector<BasicBlock*> nx; if(sw&&v>=0&&isa<LoadInst>(sw->getCondition())&&slotSw.count(cast<LoadInst>(sw->getCondition())->getPointerOperand())){ BasicBlock*t=sw->getDefaultDest(); for(auto c:sw->cases()) if((int64_t)c.getCaseValue()->getZExtValue()==v) t=c.getCaseSuccessor(); nx.push_back(t); } else for(auto*t:successors(b)) nx.push_back(t);
        for(auto*t:nx){ if(t==L->getHeader()) la=true; else if(!L->contains(t)){ if(!t->isLandingPad()) ex_=true; } else wl.push_back({t,v}); } } };
    for(auto*b:L->blocks()) if(auto*sw=dyn_cast<SwitchInst>(b->getTerminator())) if(auto*ld=dyn_cast<LoadInst>(sw->getCondition())) slotSw.insert(ld->getPointerOperand());
    for(auto*b:L->blocks()){ bool e,l; walk(b,e,l); if(e) h.canExit.insert(fi.bbi[b]); if(l) h.canLatch.insert(fi.bbi[b]); }
    fi.loops.push_back(h); } }
static FuncInfo*prep(Function*F){ auto it=g_fi.find(F); if(it!=g_fi.end()) return it->second.get(); auto fi=std::make_unique<FuncInfo>(); fi->F=F; std::unordered_map<const Value*,int> reg; for(auto&a:F->args()) reg[&a]=fi->nregs++; fi->nargs=fi->nregs; int b=0; for(auto&bb:*F){ fi->bbi[&bb]=b++; for(auto&I:bb) if(!I.getType()->isVoidTy()) reg[&I]=fi->nregs++; }
  uint32_t fs=0; fi->bb.resize(b); b=0; bool entry=true;
  for(auto&bb:*F){ for(auto&I:bb){ if(isa<DbgInfoIntrinsic>(I)) continue; Ins in; in.I=&I; in.opc=I.getOpcode(); if(!I.getType()->isVoidTy()) in.dst=reg[&I]; in.ty=I.getType(); auto op=[&](Value*v){ Opnd o; if(auto*c=dyn_cast<Constant>(v)) o.c=constVal(c); else { auto q=reg.find(v); if(q!=reg.end()) o.reg=q->second; } return o; };
      if(auto*al=dyn_cast<AllocaInst>(&I)){ uint64_t es=g_dl->getTypeAllocSize(al->getAllocatedType()); if(entry&&isa<ConstantInt>(al->getArraySize())){ uint64_t n=es*cast<ConstantInt>(al->getArraySize())->getZExtValue(); uint64_t alg=std::max<uint64_t>(16,al->getAlign().value()); fs=(fs+alg-1)/alg*alg; in.aux=1; in.off=fs; fi->locals.push_back({fs,(uint32_t)n}); fs+=n+32; } else { in.aux=0; in.off=es; in.ops.push_back(op(al->getArraySize())); } }
      else if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ in.ops.push_back(op(g->getPointerOperand())); for(auto ti=gep_type_begin(g),te=gep_type_end(g);ti!=te;++ti){ Value*ix=ti.getOperand(); if(StructType*st=ti.getStructTypeOrNull()){ in.off+=g_dl->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { uint64_t es=g_dl->getTypeAllocSize(ti.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) in.off+=ci->getSExtValue()*(int64_t)es; else { in.ops.push_back(op(ix)); in.gep.push_back({(int)in.ops.size()-1,(int64_t)es}); } } } }
      else if(auto*ph=dyn_cast<PHINode>(&I)){ for(unsigned i=0;i<ph->getNumIncomingValues();i++){ in.ops.push_back(op(ph->getIncomingValue(i))); in.succ.push_back(fi->bbi[ph->getIncomingBlock(i)]); } }
      else if(auto*cb=dyn_cast<CallBase>(&I)){ for(auto&a:cb->args()){ if(a->getType()->isMetadataTy()){ in.ops.push_back(Opnd()); continue; } in.ops.push_back(op(a)); } in.ops.push_back(isa<InlineAsm>(cb->getCalledOperand())?Opnd():op(cb->getCalledOperand())); if(auto*iv=dyn_cast<InvokeInst>(&I)) in.succ.push_back(fi->bbi[iv->getNormalDest()]); }
      else { for(auto&o:I.operands()) if(!isa<BasicBlock>(o)) in.ops.push_back(op(o)); if(auto*br=dyn_cast<BranchInst>(&I)) for(unsigned i=0;i<br->getNumSuccessors();i++) in.succ.push_back(fi->bbi[br->getSuccessor(i)]); if(auto*sw=dyn_cast<SwitchInst>(&I)) { for(auto cs:sw->cases()) in.succ.push_back(fi->bbi[cs.getCaseSuccessor()]); in.succ.push_back(fi->bbi[sw->getDefaultDest()]); } }
      if(auto*ld=dyn_cast<LoadInst>(&I)){ in.tsize=g_dl->getTypeStoreSize(ld->getType()); in.tk=tkOf(ld->getType()); }
      if(auto*sr=dyn_cast<StoreInst>(&I)){ in.tsize=g_dl->getTypeStoreSize(sr->getValueOperand()->getType()); in.tk=tkOf(sr->getValueOperand()->getType()); in.ty=sr->getValueOperand()->getType(); }
      fi->bb[b].push_back(std::move(in)); } b++; entry=false; }
  if(userFunction(F->getName().str())) findLoops(F,*fi,reg);
  fi->frameSize=fs; auto*r=fi.get(); g_fi[F]=std::move(fi); return r; }
static uint64_t newStack(FuncInfo*f){ if(!f->frameSize) return 0; uint32_t id; if(!g_freeStackIds.empty()){ id=g_freeStackIds.back(); g_freeStackIds.pop_back(); } else { g_obj.push_back(new Obj()); id=g_obj.size()-1; } Obj*o=g_obj[id]; o->size=f->frameSize; o->kind=1; o->live=true; if(getenv("VP_NAMES")||o->name.empty()) o->name="local"; o->owner=g_inPar&&g_th?g_th->id+1:0; o->b.assign(f->frameSize,0); o->st.assign(f->frameSize,3); o->slot.clear(); o->small.clear(); for(auto&l:f->locals) memset(&o->st[l.first],0,l.second); return (uint64_t)id<<32; }
static void freeStack(uint64_t a){ if(!a) return; Obj*o=objOf(a); o->live=false; o->slot.clear(); g_freeStackIds.push_back(a>>32); }
static void pushCall(Thread*t,Function*F,const std::vector<Val>&args,int retReg){ if(t->st.size()>2000) event("stack-overflow","call depth"); FuncInfo*fi=prep(F); Frame fr; fr.f=fi; fr.regs.resize(fi->nregs); for(size_t i=0;i<args.size()&&(int)i<fi->nargs;i++) fr.regs[i]=args[i]; fr.stack=newStack(fi); fr.retReg=retReg; t->st.push_back(std::move(fr)); }
static uint64_t g_steps=0;
static void runThread(Thread*t,size_t base);
static Val callFunction(Function*F,const std::vector<Val>&args); 

// ------------------------------------------------------------------ builtin calls
static Val fn1(const std::string&n,const Val&a){ if(a.k==V_UNDEF) return a; if(a.k==V_SPEC){ double d=specD(a.i); double r= n=="exp"?std::exp(d):n=="log"?std::log(d):n=="tanh"?std::tanh(d):n=="atan"?std::atan(d):n=="sinh"?std::sinh(d):n=="cosh"?std::cosh(d):NAN; return fromDouble(r); }
  Poly p=P(a); mpq_class c; if(pIsConst(p,&c)){ double d=mpqToDouble(c); double r; if(n=="exp")r=std::exp(d); else if(n=="log"){ r=std::log(d);} else if(n=="log10")r=std::log10(d); else if(n=="log2")r=std::log2(d); else if(n=="sin")r=std::sin(d); else if(n=="cos")r=std::cos(d); else if(n=="tan")r=std::tan(d); else if(n=="tanh")r=std::tanh(d); else if(n=="cosh")r=std::cosh(d); else if(n=="sinh")r=std::sinh(d); else if(n=="asinh")r=std::asinh(d); else if(n=="acosh")r=std::acosh(d); else if(n=="atan")r=std::atan(d); else if(n=="acos")r=std::acos(d); else if(n=="asin")r=std::asin(d); else if(n=="cbrt")r=std::cbrt(d); else unsupported("const fn "+n); return fromDouble(r); }
  auto single=[&](Atom&at){ if(p->t.size()==1&&p->t[0].second==1&&g_monos[p->t[0].first].f.size()==1&&g_monos[p->t[0].first].f[0].second==1){ at=g_monos[p->t[0].first].f[0].first; return true;} return false; }; Atom at;
  if(n=="log"){ int m=signMask(p); if(m&3){ if(m==2) return vSpec(2); if(m==1) return vSpec(0); int s=signDecide(p,"log-sign"); if(s==0) return vSpec(2); if(s<0) return vSpec(0); }
    // log of a monomial of exponentials
    if(p->t.size()==1){ bool all=true; for(auto&f:g_monos[p->t[0].first].f) if(!(g_atoms[f.first].kind==A_FUNC&&g_atoms[f.first].name=="exp")) all=false; if(all){ Poly r=p->t[0].second==1?pZero():pConst(mpq_class(std::log(mpqToDouble(p->t[0].second)))); for(auto&f:g_monos[p->t[0].first].f) r=pAdd(r,pScale(g_atoms[f.first].args[0],f.second)); return vReal(r); } }
    return vReal(pAtom(funcAtom("log",{p}))); }
  if(n=="exp"){ if(single(at)&&g_atoms[at].kind==A_FUNC&&g_atoms[at].name=="log") return vReal(g_atoms[at].args[0]); return vReal(pAtom(funcAtom("exp",{p}))); }
  if(n=="log10") return rDiv(fn1("log",a),fromDouble(std::log(10.0))); if(n=="log2") return rDiv(fn1("log",a),fromDouble(std::log(2.0)));
  // even/odd normalisation
  bool neg=p->t.back().second<0; if(neg&&(n=="sin"||n=="tan"||n=="tanh"||n=="sinh"||n=="asinh"||n=="atan")){ return rNeg(fn1(n,vReal(pNeg(p)))); } if(neg&&(n=="cos"||n=="cosh")) return fn1(n,vReal(pNeg(p)));
  if((n=="sin"||n=="cos"||n=="tan")&&single(at)&&g_atoms[at].kind==A_FUNC&&(g_atoms[at].name=="atan"||g_atoms[at].name=="atan2")){ Poly y=g_atoms[at].args[0], x=g_atoms[at].name=="atan"?pOne():g_atoms[at].args[1]; if(n=="tan") return rDiv(vReal(y),vReal(x)); Val h=rSqrt(vReal(pAdd(pMul(x,x),pMul(y,y)))); return rDiv(vReal(n=="sin"?y:x),h); }
  if(n=="tan") return rDiv(fn1("sin",a),fn1("cos",a));
  if(n=="sinh"||n=="cosh"||n=="tanh"){ Val e=fn1("exp",a), o=vReal(pOne()), e2=rMul(e,e); Val num=rAdd(e2,o,n!="cosh"); if(n=="tanh") return rDiv(num,rAdd(e2,o,false)); return rDiv(num,rAdd(e,e,false)); }
  return vReal(pAtom(funcAtom(n,{p}))); }
static Val fPow(const Val&a,const Val&b){ if(a.k==V_UNDEF||b.k==V_UNDEF) return vUndef(); if(a.k==V_SPEC||b.k==V_SPEC) { double x=a.k==V_SPEC?specD(a.i):1,y=b.k==V_SPEC?specD(b.i):1; if(a.k==V_SPEC&&b.k==V_REAL) y=signDecide(P(b),"pow"); return fromDouble(std::pow(x,y)); } mpq_class c,d; if(pIsConst(P(b),&c)){ if(c.get_den()==1&&abs(c)<=16){ int n=(int)c.get_d(); if(n<0){ return rDiv(vReal(pOne()),vReal(pPowInt(P(a),-n))); } return vReal(pPowInt(P(a),n)); } if(c==mpq_class(1,2)) return rSqrt(a); if(c==mpq_class(3,2)) return rMul(a,rSqrt(a)); if(pIsConst(P(a),&d)) return fromDouble(std::pow(mpqToDouble(d),mpqToDouble(c))); }
  if(pIsConst(P(a),&d)&&d==1) return a; int s=signDecide(P(a),"pow-base"); if(s<0) return vSpec(0); return vReal(pAtom(funcAtom("pow",{P(a),P(b)}))); }
static Val toReal(const Val&v){ return v; }
static CondP condOf(const Val&v,const char*what){ if(v.k==V_BOOL) return C(v); if(v.k==V_INT) return v.i?cTrue():cFalse(); event("uninit",std::string("use of an uninitialised value in ")+what); }
static double constD(const Val&v){ mpq_class c; if(v.k==V_REAL&&pIsConst(P(v),&c)) return mpqToDouble(c); return 0; }
static void doAssert(const CondP&c,const std::string&label,const std::string&detail){ g_sh->asserts++; { std::string e="{\"type\":\"assert\",\"label\":\""+jesc(label)+"\"}"; static std::set<std::string> seen; if(seen.insert(label).second) emit(e); }
  CondP n=cNot(c); if(n->k==C_FALSE){ g_sh->trivial++; 
    return; }
  Model m; SolveR r=satWith(n,&m,g_assertBudget,label.c_str());
  if(r==S_SAT){ g_sh->viol++; int k=countLabel(g_sh->violN,g_sh->violL,label); if(k<6){ Model m1=m; if(findCex(n,m1,true,25)) m=m1; } if(k<6) reportViolation(label,"assert",detail,m,"violation"); if(satWith(c,nullptr,g_branchBudget,"continue")==S_UNSAT) endPath("assert-false"); g_pc.add(c); }
  else if(r==S_UNKNOWN&&g_sh->cexTries++<12&&findCex(n,m,false,25)){ g_sh->viol++; int k=countLabel(g_sh->violN,g_sh->violL,label); if(k<6) reportViolation(label,"assert",detail,m,"violation"); }
  else if(r==S_UNKNOWN){ g_sh->unknownAsserts++; emit("{\"type\":\"unknown-assert\",\"label\":\""+jesc(label)+"\",\"choices\":"+choicesJson()+",\"detail\":\""+jesc(cStr(n).substr(0,400))+"\"}"); }
}
static void doRace();
struct ParState { std::vector<Thread*> th; };
static void runParallel(Function*fn,std::vector<Val> shared,int T){ Thread*me=g_th; bool savedPar=g_inPar; int savedN=g_nthreads; g_inPar=true; g_nthreads=T; g_acc.assign(T,{}); std::vector<Thread*> th; for(int t=0;t<T;t++){ Thread*x=new Thread(); x->id=t; th.push_back(x); uint64_t g=newObj(8,0,"gtid"); storeVal(g,vInt(t,32),4); storeVal(g+4,vInt(t,32),4); std::vector<Val> a={vPtr(g),vPtr(g+4)}; for(auto&s:shared) a.push_back(s); g_th=x; pushCall(x,fn,a,-1); }
  std::vector<int> order(T); for(int i=0;i<T;i++) order[i]= i<(int)g_order.size()&&(int)g_order.size()==T?g_order[i]:i; bool rsave=g_raceOn; g_raceOn=true;
  while(true){ bool any=false; for(int i=0;i<T;i++){ Thread*x=th[order[i]]; if(x->st.empty()) continue; any=true; x->barrier=false; g_th=x; runThread(x,0); } if(!any) break; g_acc.assign(T,{}); }
  g_raceOn=rsave; g_th=me; g_inPar=savedPar; g_nthreads=savedN; for(auto*x:th) delete x; }

static bool startsWith(const std::string&s,const char*p){ return s.compare(0,strlen(p),p)==0; }
static bool isIo(const std::string&n){ return startsWith(n,"_ZN5Eigenls")||((startsWith(n,"_ZSt")||startsWith(n,"_ZNSt")||startsWith(n,"_ZNKSt")||startsWith(n,"_ZNSo")||startsWith(n,"_ZNSi")||startsWith(n,"_ZNKSo"))&&!startsWith(n,"_ZNSt6vector")&&!startsWith(n,"_ZNKSt6vector")&&(n.find("basic_ostream")!=std::string::npos||n.find("basic_istream")!=std::string::npos||n.find("basic_ofstream")!=std::string::npos||n.find("basic_ifstream")!=std::string::npos||n.find("basic_fstream")!=std::string::npos||n.find("basic_filebuf")!=std::string::npos||n.find("basic_ios")!=std::string::npos||n.find("ios_base")!=std::string::npos||startsWith(n,"_ZNSo")||startsWith(n,"_ZNSi")||startsWith(n,"_ZNKSo")||startsWith(n,"_ZStls")||startsWith(n,"_ZNSt6locale")||startsWith(n,"_ZNSt7__cxx1115basic_stringbuf")||startsWith(n,"_ZNSt7__cxx1118basic_stringstream")||startsWith(n,"_ZNSt7__cxx1119basic_ostringstream")||startsWith(n,"_ZNSolsE"))); }
static bool inAbstractLoop(){ if(!g_loopHavoc||!g_th) return false; for(auto&f:g_th->st) if(!f.li.empty()) return true; return false; }
static int g_fresh=0;
// returns true if handled; result in ret. May push frames.
static bool builtin(Function*F,const std::string&n,std::vector<Val>&a,Val&ret,Ins&in,Frame&fr){ (void)F; ret=vUndef();
  auto I=[&](int i)->uint64_t{ if(a[i].k==V_BOOL) a[i]=concretize(a[i],n.c_str()); if(a[i].k!=V_INT) event("uninit","uninitialised argument of "+n); return a[i].i; };
  if(startsWith(n,"llvm.")){ 
    if(startsWith(n,"llvm.memcpy")||startsWith(n,"llvm.memmove")){ memCopy(I(0),I(1),I(2)); return true; }
    if(startsWith(n,"llvm.memset")){ memSet(I(0),I(1),I(2)); return true; }
    if(startsWith(n,"llvm.lifetime.start")||startsWith(n,"llvm.lifetime.end")){ uint64_t p=I(1),sz=(int64_t)a[0].i<0?0:a[0].i; Obj*o=objOf(p); if(o&&sz&&(uint32_t)p+sz<=o->size&&o->kind==1){ killCells(o,(uint32_t)p,sz); memset(&o->st[(uint32_t)p],0,sz); } return true; }
    if(startsWith(n,"llvm.dbg")||startsWith(n,"llvm.assume")||startsWith(n,"llvm.experimental.noalias")||startsWith(n,"llvm.invariant")||startsWith(n,"llvm.prefetch")||startsWith(n,"llvm.donothing")||startsWith(n,"llvm.stackrestore")||startsWith(n,"llvm.var.annotation")) return true;
    if(startsWith(n,"llvm.stacksave")){ ret=vPtr(0); return true; }
    if(startsWith(n,"llvm.expect")||startsWith(n,"llvm.launder")||startsWith(n,"llvm.strip")||startsWith(n,"llvm.ssa.copy")){ ret=a[0]; return true; }
    if(startsWith(n,"llvm.is.constant")){ ret=vInt(0,1); return true; }
    if(startsWith(n,"llvm.objectsize")){ ret=vInt(~0ull,in.ty->getIntegerBitWidth()); return true; }
    if(startsWith(n,"llvm.trap")||startsWith(n,"llvm.ubsantrap")) event("trap","trap reached");
    if(startsWith(n,"llvm.eh.typeid")){ ret=vInt(0,32); return true; }
    if(startsWith(n,"llvm.fabs")||startsWith(n,"llvm.sqrt")||startsWith(n,"llvm.floor")||startsWith(n,"llvm.ceil")||startsWith(n,"llvm.trunc")||startsWith(n,"llvm.round")||startsWith(n,"llvm.pow.")||startsWith(n,"llvm.exp.")||startsWith(n,"llvm.log.")||startsWith(n,"llvm.sin.")||startsWith(n,"llvm.cos.")){ std::string m=n.substr(5); m=m.substr(0,m.find('.')); return builtin(F,m,a,ret,in,fr); }
    if(startsWith(n,"llvm.powi")){ ret=fPow(a[0],vReal(pConst(mpq_class((long)sx(a[1]))))); return true; }
    if(startsWith(n,"llvm.fmuladd")||startsWith(n,"llvm.fma")){ ret=rAdd(rMul(a[0],a[1]),a[2],false); return true; }
    if(startsWith(n,"llvm.minnum")||startsWith(n,"llvm.minimum")) return builtin(F,"fmin",a,ret,in,fr); if(startsWith(n,"llvm.maxnum")||startsWith(n,"llvm.maximum")) return builtin(F,"fmax",a,ret,in,fr);
    if(startsWith(n,"llvm.copysign")) return builtin(F,"copysign",a,ret,in,fr);
    if(startsWith(n,"llvm.is.fpclass")){ uint64_t m=I(1); if(a[0].k==V_SPEC) ret=vInt(a[0].i==0?(m&3)!=0:a[0].i==1?(m&512)!=0:(m&4)!=0,1); else if(a[0].k==V_REAL) ret=vInt((m&(0x1f8))!=0&&((m&3)==0||true)?((m&0x1f8)!=0):0,1); return true; }
    unsigned w=in.ty->isIntegerTy()?in.ty->getIntegerBitWidth():64;
    if(startsWith(n,"llvm.umax")){ ret=vInt(std::max(I(0),I(1)),w); return true; } if(startsWith(n,"llvm.umin")){ ret=vInt(std::min(I(0),I(1)),w); return true; }
    if(startsWith(n,"llvm.smax")){ I(0);I(1); ret=vInt(std::max(sx(a[0]),sx(a[1])),w); return true; } if(startsWith(n,"llvm.smin")){ I(0);I(1); ret=vInt(std::min(sx(a[0]),sx(a[1])),w); return true; } if(startsWith(n,"llvm.abs")){ I(0); ret=vInt(std::llabs(sx(a[0])),w); return true; }
    if(startsWith(n,"llvm.ctlz")){ uint64_t x=I(0); int k=0; for(int b=w-1;b>=0&&!((x>>b)&1);b--) k++; ret=vInt(k,w); return true; } if(startsWith(n,"llvm.cttz")){ uint64_t x=I(0); unsigned k=0; while(k<w&&!((x>>k)&1)) k++; ret=vInt(k,w); return true; } if(startsWith(n,"llvm.ctpop")){ ret=vInt(__builtin_popcountll(I(0)),w); return true; }
    { static const char*ov[]={"llvm.umul.with.overflow","llvm.uadd.with.overflow","llvm.usub.with.overflow","llvm.smul.with.overflow","llvm.sadd.with.overflow","llvm.ssub.with.overflow"}; for(int k=0;k<6;k++) if(startsWith(n,ov[k])){ I(0);I(1); unsigned ww=a[0].w; __int128 r; bool of; if(k<3){ unsigned __int128 x=a[0].i,y=a[1].i; unsigned __int128 z=k==0?x*y:k==1?x+y:x-y; of= ww<64? (z>>ww)!=0 : (z>>64)!=0; r=(__int128)z; } else { __int128 x=sx(a[0]),y=sx(a[1]); r=k==3?x*y:k==4?x+y:x-y; __int128 lim=(__int128)1<<(ww-1); of=r<-lim||r>=lim; } ret=vAgg({vInt((uint64_t)r,ww),vInt(of,1)}); return true; } }
    return false; }
  // ---- harness API
  if(startsWith(n,"vp_")){
    if(n=="vp_real"){ std::string nm=cstr(I(0)); mpq_class lo,hi; bool okl=a[1].k==V_REAL&&pIsConst(P(a[1]),&lo), okh=a[2].k==V_REAL&&pIsConst(P(a[2]),&hi); if(okl&&okh&&lo==hi){ Atom t=newInput(nm,true,lo,true,hi); g_inputs.push_back({nm,t}); ret=vReal(pConst(lo)); return true; } Atom t=newInput(nm,okl,lo,okh,hi); g_inputs.push_back({nm,t}); ret=vReal(pAtom(t)); return true; }
    if(n=="vp_choice"){ std::string nm=cstr(I(0)); int k=I(1); int pick=-1; if(const char*e=getenv(("VPC_"+nm).c_str())) pick=atoi(e); else { for(int c=0;c<k-1;c++) if(forkPath()){ pick=c; break; } if(pick<0) pick=k-1; } g_choices.push_back({nm,pick}); if(getenv("VP_VERBOSE")) fprintf(stderr,"[choice] %s=%d\n",nm.c_str(),pick); ret=vInt(pick,32); return true; }
    if(n=="vp_concretize_int"){ ret=a[0]; return true; }
    if(n=="vp_assume"){ CondP c=condOf(a[0],"assume"); int q=quick(c); if(q==1) return true; if(q==0||satWith(c,nullptr,g_branchBudget,"assume")==S_UNSAT) endPath("assume"); g_pc.add(c); return true; }
    if(n=="vp_assert"){ doAssert(condOf(a[0],"assertion"),cstr(I(1)),""); return true; }
    if(n=="vp_assert_eq"||n=="vp_assert_le"){ std::string lab=cstr(I(3)); for(int i=0;i<3;i++) if(a[i].k==V_UNDEF) event("uninit","uninitialised value reaches "+lab); if(a[0].k==V_SPEC||a[1].k==V_SPEC){ double x=a[0].k==V_SPEC?specD(a[0].i):0,y=a[1].k==V_SPEC?specD(a[1].i):0; bool ok= n=="vp_assert_eq"? x==y&&a[0].k==a[1].k : x<=y; doAssert(ok?cTrue():cFalse(),lab,"non-finite value"); return true; } Poly d=pSub(P(a[0]),P(a[1])); Poly t=P(a[2]); { Poly d2=pExpandNamed(d); if(d2->hasInv) d2=pCancel(d2); if(d2->t.size()<=d->t.size()+2000) d=d2; } if(pIsZero(d)||quick(cRel(R_EQ,d))==1){ doAssert(cTrue(),lab,""); return true; } CondP c=cRel(R_LE,pSub(d,t)); if(n=="vp_assert_eq") c=cAnd(c,cRel(R_LE,pSub(pNeg(d),t))); doAssert(c,lab,"difference "+pStr(d,12)); return true; }
    if(n=="vp_reach"){ std::string l=cstr(I(0)); int c=g_sh->reachN; int seen=0; for(int i=0;i<c&&i<64;i++) if(!strncmp(g_sh->reach[i],l.c_str(),63)) seen++; if(seen<2){ int i=g_sh->reachN++; if(i<64){ strncpy(g_sh->reach[i],l.c_str(),63); Model m; SolveR r=satWith(cTrue(),&m,g_assertBudget,"reach"); if(r==S_SAT) reportViolation(l,"reach","",m,"reach"); else emit("{\"type\":\"reach-unknown\",\"label\":\""+jesc(l)+"\"}"); } } return true; }
    if(n=="vp_observe"){ g_observed.push_back({cstr(I(0)),a[1]}); return true; }
    if(n=="vp_wrote"){ auto it=g_stream.find(I(0)); if(it!=g_stream.end()) g_files[it->second].push_back(vReal(pConst(mpq_class((long)I(1))))); return true; }
    if(n=="vp_file_count"){ auto it=g_files.find(cstr(I(0))); ret=vInt(it==g_files.end()?(uint64_t)-1:it->second.size(),32); return true; }
    if(n=="vp_file_value"){ auto it=g_files.find(cstr(I(0))); uint64_t k=I(1); ret= it==g_files.end()||k>=it->second.size()? vSpec(0): it->second[k]; return true; }
    if(n=="vp_tier"){ const char*e=getenv("VP_TIER"); ret=vInt(e&&!strcmp(e,"thorough"),32); return true; }
    if(n=="vp_symbolic"){ ret=vInt(1,32); return true; }
    if(n=="vp_havoc_loops"){ g_loopHavoc=I(0); return true; }
    if(n=="vp_fresh"){ std::string nm=cstr(I(0)); Atom t=newFresh(nm+"#"+std::to_string(g_fresh++)); ret=vReal(pAtom(t)); g_havocked=true; return true; }
    if(n=="vp_is_const"){ ret=vInt(a[0].k==V_REAL&&pIsConst(P(a[0])),32); return true; }
    if(n=="vp_same"){ ret=vInt(a[0].k==V_REAL&&a[1].k==V_REAL&&pEq(P(a[0]),P(a[1])),32); return true; }
    if(n=="vp_defined"){ ret=vInt(a[0].k!=V_UNDEF,32); return true; }
    if(n=="vp_finite"){ ret=vInt(a[0].k==V_REAL,32); return true; }
    if(n=="vp_name"){ if(a[0].k==V_REAL&&!pIsConst(P(a[0]))){ size_t s=g_nameLimit; g_nameLimit=0; ret=vReal(pNameIfBig(P(a[0]))); g_nameLimit=s; } else ret=a[0]; return true; }
    if(n=="vp_thread_order"){ uint64_t T=I(0),k=I(1); std::vector<int> o; for(unsigned i=0;i<T;i++) o.push_back(i); for(unsigned i=0;i<k;i++) std::next_permutation(o.begin(),o.end()); g_order=o; return true; }
    if(n=="vp_end"){ endPath("end"); }
    if(n=="vp_trace"){ if(getenv("VP_VERBOSE")){ fprintf(stderr,"[trace] %s = %s\n",cstr(I(0)).c_str(),a[1].k==V_REAL?pStr(P(a[1]),20).c_str():a[1].k==V_SPEC?"spec":a[1].k==V_UNDEF?"undef":std::to_string(a[1].i).c_str()); } return true; }
    return false; }
  // ---- libm
  { static const std::set<std::string> f1={"exp","log","sin","cos","tan","tanh","cosh","sinh","asinh","acosh","atan","acos","asin","cbrt","log10","log2"}; if(f1.count(n)){ ret=fn1(n,a[0]); return true; } }
  if(n=="sqrt"){ ret=rSqrt(a[0]); return true; }
  if(n=="fabs"){ if(a[0].k==V_UNDEF) ret=a[0]; else if(a[0].k==V_SPEC) ret=a[0].i==0?a[0]:vSpec(1); else if(inAbstractLoop()&&signMask(P(a[0]))==7){ Atom t=newFresh("abs#"+std::to_string(g_fresh++)); g_absOf[t]=P(a[0]); g_pc.add(cRel(R_LE,pNeg(pAtom(t)))); ret=vReal(pAtom(t)); } else ret=vReal(rabs(P(a[0]),"fabs")); return true; }
  if(n=="pow"){ ret=fPow(a[0],a[1]); return true; }
  if(n=="hypot"){ ret=rSqrt(rAdd(rMul(a[0],a[0]),rMul(a[1],a[1]),false)); return true; }
  if(n=="fma"){ ret=rAdd(rMul(a[0],a[1]),a[2],false); return true; }
  if(n=="expm1"){ ret=rAdd(fn1("exp",a[0]),vReal(pOne()),true); return true; } if(n=="log1p"){ ret=fn1("log",rAdd(a[0],vReal(pOne()),false)); return true; }
  if(n=="atan2"){ if(a[0].k!=V_REAL||a[1].k!=V_REAL){ ret=vUndef(); return true; } mpq_class x,y; if(pIsConst(P(a[0]),&y)&&pIsConst(P(a[1]),&x)) ret=fromDouble(std::atan2(mpqToDouble(y),mpqToDouble(x))); else ret=vReal(pAtom(funcAtom("atan2",{P(a[0]),P(a[1])}))); return true; }
  if(n=="floor"||n=="ceil"||n=="trunc"||n=="round"||n=="rint"||n=="nearbyint"){ if(a[0].k!=V_REAL){ ret=a[0]; return true; } mpz_class z; intPart(a[0],n=="floor"?0:n=="ceil"?1:n=="trunc"?2:3,z); ret=vReal(pConst(mpq_class(z))); return true; }
  if(n=="lround"||n=="lrint"||n=="llround"){ mpz_class z; if(a[0].k!=V_REAL) event("uninit","lround of bad value"); intPart(a[0],3,z); ret=vInt((uint64_t)z.get_si(),64); return true; }
  if(n=="fmax"||n=="fmin"){ if(a[0].k==V_SPEC||a[1].k==V_SPEC){ if(a[0].k==V_SPEC&&a[0].i==0){ ret=a[1]; return true;} if(a[1].k==V_SPEC&&a[1].i==0){ ret=a[0]; return true;} } Val c=vFcmp(CmpInst::FCMP_OLT,a[0],a[1]); bool lt=decide(condOf(c,"fmin/fmax"),"fminmax"); ret= (n=="fmax")==lt?a[1]:a[0]; return true; }
  if(n=="copysign"){ if(a[0].k!=V_REAL||a[1].k!=V_REAL){ ret=a[0]; return true; } Poly m=rabs(P(a[0]),"copysign"); bool neg=decide(cRel(R_LT,P(a[1])),"copysign"); ret=vReal(neg?pNeg(m):m); return true; }
  if(n=="fmod"||n=="remainder"){ if(a[0].k!=V_REAL||a[1].k!=V_REAL){ ret=vSpec(0); return true; } Val q=rDiv(a[0],a[1]); if(q.k!=V_REAL){ ret=vSpec(0); return true; } mpz_class z; intPart(q,n=="fmod"?2:3,z); ret=rAdd(a[0],rMul(vReal(pConst(mpq_class(z))),a[1]),true); return true; }
  if(n=="modf"){ mpz_class z; intPart(a[0],2,z); storeVal(I(1),vReal(pConst(mpq_class(z))),8); ret=rAdd(a[0],vReal(pConst(mpq_class(z))),true); return true; }
  if(n=="__isnan"||n=="isnan"||n=="__isinf"||n=="isinf"||n=="__finite"||n=="finite"){ bool nan=a[0].k==V_SPEC&&a[0].i==0,inf=a[0].k==V_SPEC&&a[0].i>0; ret=vInt(n.find("nan")!=std::string::npos?nan:n.find("inf")!=std::string::npos&&n.find("finite")==std::string::npos?inf:!(nan||inf),32); return true; }
  // ---- allocation
  if(n=="malloc"||n=="_Znwm"||n=="_Znam"||startsWith(n,"_ZnwmSt")||startsWith(n,"_ZnamSt")||n=="aligned_alloc"){ uint64_t s=n=="aligned_alloc"?I(1):I(0); if(s>(1ull<<30)) event("memory","allocation of "+std::to_string(s)+" bytes"); ret=vPtr(newObj(s,0,"heap")); objOf(ret.i)->owner=g_inPar?g_th->id+1:0; return true; }
  if(n=="calloc"){ uint64_t s=I(0)*I(1); ret=vPtr(newObj(s,0,"heap")); memSet(ret.i,0,s); return true; }
  if(n=="free"||startsWith(n,"_ZdlPv")||startsWith(n,"_ZdaPv")){ uint64_t p=I(0); if(!p) return true; Obj*o=objOf(p); if(!o||o->kind!=0||(uint32_t)p!=0) event("memory","bad free"); if(!o->live) event("memory","double free"); logAcc(p,o->size,true); o->live=false; std::vector<uint8_t>().swap(o->b); std::vector<uint8_t>().swap(o->st); std::vector<Val>().swap(o->slot); o->small.clear(); return true; }
  if(n=="realloc"){ uint64_t p=I(0),s=I(1); uint64_t q=newObj(s,0,"heap"); if(p){ Obj*o=objOf(p); memCopy(q,p,std::min<uint64_t>(s,o->size)); o->live=false; } ret=vPtr(q); return true; }
  if(n=="memcpy"||n=="memmove"){ memCopy(I(0),I(1),I(2)); ret=a[0]; return true; } if(n=="memset"){ memSet(I(0),I(1),I(2)); ret=a[0]; return true; }
  if(n=="strlen"){ ret=vInt(cstr(I(0)).size(),64); return true; }
  if(n=="memcmp"||n=="bcmp"){ uint64_t k=I(2); int r=0; for(uint64_t i=0;i<k&&!r;i++){ Val x=loadVal(a[0].i+i,1,T_INT),y=loadVal(a[1].i+i,1,T_INT); if(x.k!=V_INT||y.k!=V_INT) event("uninit","memcmp of uninitialised bytes"); r=(int)x.i-(int)y.i; } ret=vInt((uint64_t)(int64_t)r,32); return true; }
  if(n=="memchr"){ uint64_t k=I(2); ret=vPtr(0); for(uint64_t i=0;i<k;i++){ Val x=loadVal(a[0].i+i,1,T_INT); if(x.k==V_INT&&x.i==(I(1)&255)){ ret=vPtr(a[0].i+i); break; } } return true; }
  if(n=="strcmp"){ ret=vInt((uint64_t)(int64_t)strcmp(cstr(I(0)).c_str(),cstr(I(1)).c_str()),32); return true; }
  if(n=="abs"||n=="labs"){ I(0); ret=vInt(std::llabs(sx(a[0])),a[0].w); return true; }
  // ---- process / environment
  if(n=="exit"||n=="_exit"||n=="quick_exit") endPath("exit"); if(n=="abort"||n=="__assert_fail"||n=="_ZSt9terminatev"||n=="__cxa_pure_virtual"||startsWith(n,"_ZSt21__glibcxx_assert_fail")||startsWith(n,"_ZSt20__throw")||startsWith(n,"_ZSt17__throw")||startsWith(n,"_ZSt19__throw")||startsWith(n,"_ZSt16__throw")||startsWith(n,"_ZSt2")&&n.find("__throw_")!=std::string::npos||n=="__cxa_throw"||n=="__cxa_rethrow") { std::string d=n; if(startsWith(n,"_ZSt21__glibcxx_assert_fail")){ d="container assertion failed: "; if(a.size()>3&&a[3].k==V_INT&&a[3].i) d+=cstr(a[3].i); event("memory",d); } event(n.find("throw")!=std::string::npos?"exception":"abort",d); }
  if(n=="__cxa_atexit"||n=="atexit"||n=="mkdir"||n=="gettimeofday"||n=="rmdir"||n=="unlink"||n=="puts"||n=="putchar"||n=="printf"||n=="fprintf"||n=="fflush"||n=="system"||n=="fclose"){ if(n=="gettimeofday"){ memSet(I(0),0,16); } ret=vInt(0,in.ty->isIntegerTy()?in.ty->getIntegerBitWidth():32); return true; }
  if(n=="time"||n=="clock"||n=="rand"){ ret=vInt(n=="rand"?4:1000,in.ty->getIntegerBitWidth()); return true; }
  if(n=="__cxa_guard_acquire"){ Val v=loadVal(I(0),1,T_INT); ret=vInt(v.k==V_INT&&v.i?0:1,32); return true; } if(n=="__cxa_guard_release"){ storeVal(I(0),vInt(1,8),1); return true; } if(n=="__cxa_guard_abort") return true;
  if(n=="__errno_location"){ static uint64_t e=0; if(!e){ e=newObj(4,2,"errno"); memSet(e,0,4);} ret=vPtr(e); return true; }
  if(n=="strerror"||n=="getenv"){ static uint64_t e=0; if(n=="getenv"){ ret=vPtr(0); return true;} if(!e){ e=newObj(8,2,"strerror"); memSet(e,0,8);} ret=vPtr(e); return true; }
  if(n=="__cxa_begin_catch"||n=="__cxa_allocate_exception"){ ret=vPtr(newObj(256,0,"exc")); return true; } if(n=="__cxa_end_catch"||n=="__cxa_free_exception"||n=="_ZNSt8ios_base4InitC1Ev"||n=="_ZNSt8ios_base4InitD1Ev") return true;
  if(n=="__dynamic_cast"){ ret=a[0]; return true; }
  if(startsWith(n,"_ZNSt6chrono")){ ret=vInt(0,64); return true; }
  if(n=="_ZSt9use_facetISt5ctypeIcEERKT_RKSt6locale"){ ret=a[0]; return true; }
  // ---- OpenMP
  if(n=="__kmpc_global_thread_num"||n=="omp_get_thread_num"){ ret=vInt(g_th->id,32); return true; }
  if(n=="omp_get_num_threads"){ ret=vInt(g_inPar?g_nthreads:1,32); return true; } if(n=="omp_get_max_threads"||n=="omp_get_num_procs"){ ret=vInt(std::max(1,g_pushThreads),32); return true; } if(n=="omp_set_num_threads"||n=="omp_set_dynamic"||n=="omp_set_nested") return true; if(n=="omp_get_wtime"){ ret=vReal(pZero()); return true; } if(n=="omp_in_parallel"){ ret=vInt(g_inPar,32); return true; }
  if(n=="__kmpc_push_num_threads"){ g_pushThreads=I(2); return true; }
  if(n=="__kmpc_serialized_parallel"||n=="__kmpc_end_serialized_parallel") return true;
  if(n=="__kmpc_fork_call"){ Function*fn=g_faddr[I(2)]; std::vector<Val> sh(a.begin()+3,a.end()); int T=g_pushThreads; if(g_inPar||T<=1) T=1; if(T==1){ uint64_t g=newObj(8,0,"gtid"); storeVal(g,vInt(g_th->id,32),4); storeVal(g+4,vInt(0,32),4); std::vector<Val> args={vPtr(g),vPtr(g+4)}; args.insert(args.end(),sh.begin(),sh.end()); int sv=g_nthreads; (void)sv; g_pushThreads=0; bool sp=g_inPar; int sn=g_nthreads; (void)sp; (void)sn; g_nthreads=g_inPar?g_nthreads:1; pushCall(g_th,fn,args,-1); return true; } g_pushThreads=0; runParallel(fn,sh,T); return true; }
  if(startsWith(n,"__kmpc_for_static_init_")){ bool w8=n[23]=='8'; bool uns=n.back()=='u'; int sz=w8?8:4; uint64_t sched=I(2)&0xff; uint64_t pl=I(4),pu=I(5),ps=I(6); Val lo=loadVal(pl,sz,T_INT),hi=loadVal(pu,sz,T_INT); int64_t L=uns?(int64_t)lo.i:sx(lo),U=uns?(int64_t)hi.i:sx(hi); int64_t inc=sx(a[7]),chunk=sx(a[8]); int T=g_inPar?g_nthreads:1,t=g_inPar?g_th->id:0; int64_t trip= inc>0?(U>=L?(U-L)/inc+1:0):(L>=U?(L-U)/(-inc)+1:0); uint64_t plast=I(3);
    if(sched==33){ if(chunk<1) chunk=1; int64_t l=L+inc*chunk*t; storeVal(pl,vInt(l,sz*8),sz); storeVal(pu,vInt(l+inc*(chunk-1),sz*8),sz); storeVal(ps,vInt(inc*chunk*T,sz*8),sz); int64_t lastc=trip>0?(trip-1)/chunk:0; if(plast) storeVal(plast,vInt(trip>0&&lastc%T==t,32),4); return true; }
    if(T==1){ storeVal(ps,vInt(trip*inc,sz*8),sz); if(plast) storeVal(plast,vInt(trip>0,32),4); return true; }
    int64_t small=trip/T,extra=trip%T; int64_t b=t*small+std::min<int64_t>(t,extra); int64_t c=small+(t<extra?1:0); int64_t l=L+inc*b; storeVal(pl,vInt(l,sz*8),sz); storeVal(pu,vInt(l+inc*(c-1),sz*8),sz); storeVal(ps,vInt(trip*inc,sz*8),sz); if(plast) storeVal(plast,vInt(c>0&&b+c==trip,32),4); return true; }
  if(startsWith(n,"__kmpc_for_static_fini")||startsWith(n,"__kmpc_dispatch_fini")||n=="__kmpc_dispatch_deinit") return true;
  if(startsWith(n,"__kmpc_dispatch_init_")){ int sz=n[21]=='8'?8:4; (void)sz; int64_t L=sx(a[3]),U=sx(a[4]),inc=sx(a[5]),ch=sx(a[6]); if(ch<1) ch=1; g_th->dispatch[0]=L; g_th->dispatch[1]=U; g_th->dispatch[2]=inc; g_th->dispatch[3]=ch; g_th->dispatch[4]=g_inPar?g_th->id:0; return true; }
  if(startsWith(n,"__kmpc_dispatch_next_")){ int sz=n[21]=='8'?8:4; int64_t L=g_th->dispatch[0],U=g_th->dispatch[1],inc=g_th->dispatch[2],ch=g_th->dispatch[3],k=g_th->dispatch[4]; int T=g_inPar?g_nthreads:1; int64_t trip=inc>0?(U>=L?(U-L)/inc+1:0):(L>=U?(L-U)/(-inc)+1:0); if(k*ch>=trip){ ret=vInt(0,32); return true; } int64_t b=k*ch,e=std::min<int64_t>(trip,b+ch); if(I(2)) storeVal(I(2),vInt(e==trip,32),4); storeVal(I(3),vInt(L+inc*b,sz*8),sz); storeVal(I(4),vInt(L+inc*(e-1),sz*8),sz); storeVal(I(5),vInt(inc,sz*8),sz); g_th->dispatch[4]=k+T; ret=vInt(1,32); return true; }
  if(n=="__kmpc_barrier"){ if(g_inPar&&g_nthreads>1) g_th->barrier=true; return true; }
  if(n=="__kmpc_critical"||n=="__kmpc_critical_with_hint"||n=="__kmpc_ordered"||n=="omp_set_lock"||n=="__kmpc_set_lock"){ g_th->crit++; return true; } if(n=="__kmpc_end_critical"||n=="__kmpc_end_ordered"||n=="omp_unset_lock"){ g_th->crit--; return true; }
  if(n=="__kmpc_reduce_nowait"||n=="__kmpc_reduce"){ g_th->crit++; ret=vInt(1,32); return true; } if(n=="__kmpc_end_reduce_nowait"){ g_th->crit--; return true; } if(n=="__kmpc_end_reduce"){ g_th->crit--; if(g_inPar&&g_nthreads>1) g_th->barrier=true; return true; }
  if(n=="__kmpc_single"||n=="__kmpc_master"||n=="__kmpc_masked"){ ret=vInt(!g_inPar||g_th->id==0,32); return true; } if(n=="__kmpc_end_single"||n=="__kmpc_end_master"||n=="__kmpc_end_masked"||n=="__kmpc_flush") return true;
  if(n=="omp_init_lock"||n=="omp_destroy_lock") return true;
  // ---- iostream: no-ops returning the stream; numbers written to named files are recorded
  if(isIo(n)){
    auto sstr=[&](uint64_t s){ Val p=loadVal(s,8,T_INT),l=loadVal(s+8,8,T_INT); std::string r; if(p.k==V_INT&&l.k==V_INT) for(uint64_t i=0;i<l.i;i++){ Val c=loadVal(p.i+i,1,T_INT); r+= c.k==V_INT?(char)c.i:'?'; } return r; };
    if(startsWith(n,"_ZNSt14basic_ofstreamIcSt11char_traitsIcEE")&&a.size()>=2){ bool open=n.find("EE4open")!=std::string::npos, ctor=n.find("EEC1E")!=std::string::npos||n.find("EEC2E")!=std::string::npos; if(open||ctor){ std::string f; if(n.find("ERKNSt7__cxx1112basic_string")!=std::string::npos) f=sstr(a[1].i); else if(n.find("EPKc")!=std::string::npos) f=cstr(a[1].i); bool app=a.size()>2&&a.back().k==V_INT&&(a.back().i&1); g_stream[a[0].i]=f; if(!app) g_files[f].clear(); } }
    else if((startsWith(n,"_ZNSolsE")||startsWith(n,"_ZNSo9_M_insert"))&&a.size()==2&&g_stream.count(a[0].i)){ const Val&v=a[1]; if(v.k==V_REAL||v.k==V_SPEC) g_files[g_stream[a[0].i]].push_back(v); else if(v.k==V_INT&&n!="_ZNSolsEPFRSoS_E"&&n.find("PF")==std::string::npos&&n.find("PKv")==std::string::npos){ bool uns=n=="_ZNSolsEj"||n=="_ZNSolsEm"||n=="_ZNSolsEt"; mpq_class q= uns? mpq_class(mpz_class((unsigned long)v.i)): mpq_class(mpz_class((long)sx(v))); g_files[g_stream[a[0].i]].push_back(vReal(pConst(q))); } else if(v.k==V_UNDEF) event("uninit","uninitialised value written to "+g_stream[a[0].i]); }
    else if(startsWith(n,"_ZStls")&&n.find("RKNSt7__cxx1112basic_string")!=std::string::npos&&a.size()==2&&g_stream.count(a[0].i)){ std::string s=sstr(a[1].i); char*e; double d=strtod(s.c_str(),&e); if(!s.empty()&&!*e) g_files[g_stream[a[0].i]].push_back(fromDouble(d)); }
    if(in.ty->isPointerTy()) ret=a.empty()?vPtr(0):a[0]; else if(in.ty->isIntegerTy()) ret=vInt(startsWith(n,"_ZNKSt9basic_iosIcSt11char_traitsIcEE4good")||n.find("cvb")!=std::string::npos||n.find("is_open")!=std::string::npos?1:0,in.ty->getIntegerBitWidth()); return true; }
  return false; }

// ------------------------------------------------------------------ interpreter
static Val ev(Frame&f,const Opnd&o){ return o.reg>=0?f.regs[o.reg]:o.c; }
static Val needInt(Val v,const char*what){ if(v.k==V_BOOL) return concretize(v,what); if(v.k==V_BITS) return realBits(Val{V_REAL,64,0,v.p}); if(v.k!=V_INT) event("uninit",std::string("use of an uninitialised value in ")+what); return v; }
static Val loadTyped(uint64_t a,Type*t){ TK k=tkOf(t); if(k!=T_AGG) { if(k==T_INT&&t->getIntegerBitWidth()<8){ Val v=loadVal(a,1,T_INT); if(v.k==V_INT) return vInt(v.i,t->getIntegerBitWidth()); if(v.k==V_BOOL) v.w=t->getIntegerBitWidth(); return v; } return loadVal(a,g_dl->getTypeStoreSize(t),k==T_PTR?T_INT:k); } std::vector<Val> v; if(t->isStructTy()){ auto*sl=g_dl->getStructLayout(cast<StructType>(t)); for(unsigned i=0;i<t->getStructNumElements();i++) v.push_back(loadTyped(a+sl->getElementOffset(i),t->getStructElementType(i))); } else { Type*et=t->getContainedType(0); uint64_t es=g_dl->getTypeAllocSize(et); unsigned n=t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); for(unsigned i=0;i<n;i++) v.push_back(loadTyped(a+i*es,et)); } return vAgg(v); }
static void storeTyped(uint64_t a,Type*t,const Val&v){ TK k=tkOf(t); if(k!=T_AGG){ if(k==T_FLT){ if(v.k==V_REAL){ mpq_class c; if(!pIsConst(P(v),&c)) unsupported("symbolic float"); float f=(float)mpqToDouble(c); uint32_t x; memcpy(&x,&f,4); storeVal(a,vInt(x,32),4); return;} } storeVal(a,v,g_dl->getTypeStoreSize(t)); return; } if(v.k==V_UNDEF){ Obj*o=objOf(a); uint64_t n=g_dl->getTypeStoreSize(t); chk(a,n,"write"); killCells(o,(uint32_t)a,n); memset(&o->st[(uint32_t)a],0,n); return; } auto&e=A(v); if(t->isStructTy()){ auto*sl=g_dl->getStructLayout(cast<StructType>(t)); for(unsigned i=0;i<e.size();i++) storeTyped(a+sl->getElementOffset(i),t->getStructElementType(i),e[i]); } else { Type*et=t->getContainedType(0); uint64_t es=g_dl->getTypeAllocSize(et); for(unsigned i=0;i<e.size();i++) storeTyped(a+i*es,et,e[i]); } }
static Val icmp(CmpInst::Predicate p,Val a,Val b){ 
  if(a.k==V_UNDEF||b.k==V_UNDEF) return vUndef();
  auto bc=[&](const Val&x,const Val&y,CmpInst::Predicate q,Val&out){ if(x.k==V_BOOL&&y.k==V_INT){ // value is 0/1
      bool t1,t0; auto cmp=[&](uint64_t v){ Val z=vInt(v,x.w); int64_t sa=sx(z),sb=sx(y); switch(q){case CmpInst::ICMP_EQ:return z.i==y.i;case CmpInst::ICMP_NE:return z.i!=y.i;case CmpInst::ICMP_UGT:return z.i>y.i;case CmpInst::ICMP_UGE:return z.i>=y.i;case CmpInst::ICMP_ULT:return z.i<y.i;case CmpInst::ICMP_ULE:return z.i<=y.i;case CmpInst::ICMP_SGT:return sa>sb;case CmpInst::ICMP_SGE:return sa>=sb;case CmpInst::ICMP_SLT:return sa<sb;default:return sa<=sb;} }; t1=cmp(1); t0=cmp(0); CondP c=C(x); out= t1==t0?vInt(t1,1): t1?vBool(c):vBool(cNot(c)); return true; } return false; };
  Val out; if(bc(a,b,p,out)) return out; if(bc(b,a,CmpInst::getSwappedPredicate(p),out)) return out;
  if(a.k==V_BOOL&&b.k==V_BOOL&&(p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE)){ CondP x=C(a),y=C(b); CondP e=cOr(cAnd(x,y),cAnd(cNot(x),cNot(y))); return vBool(p==CmpInst::ICMP_EQ?e:cNot(e)); }
  if(a.k==V_BITS&&b.k==V_BITS&&pEq(P(a),P(b))){ return vInt(p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_UGE||p==CmpInst::ICMP_ULE,1); }
  a=needInt(a,"comparison"); b=needInt(b,"comparison"); int64_t sa=sx(a),sb=sx(b); bool r; switch(p){case CmpInst::ICMP_EQ:r=a.i==b.i;break;case CmpInst::ICMP_NE:r=a.i!=b.i;break;case CmpInst::ICMP_UGT:r=a.i>b.i;break;case CmpInst::ICMP_UGE:r=a.i>=b.i;break;case CmpInst::ICMP_ULT:r=a.i<b.i;break;case CmpInst::ICMP_ULE:r=a.i<=b.i;break;case CmpInst::ICMP_SGT:r=sa>sb;break;case CmpInst::ICMP_SGE:r=sa>=sb;break;case CmpInst::ICMP_SLT:r=sa<sb;break;default:r=sa<=sb;} return vInt(r,1); }
static Val intOp(unsigned opc,Val a,Val b){ if(a.k==V_UNDEF||b.k==V_UNDEF) return vUndef();
  if((a.k==V_BOOL||b.k==V_BOOL)){ auto cc=[&](const Val&v,CondP&c){ if(v.k==V_BOOL){ c=C(v); return true;} if(v.k==V_INT&&v.i<=1){ c=v.i?cTrue():cFalse(); return true;} return false; }; CondP x,y; if(cc(a,x)&&cc(b,y)){ unsigned w=std::max(a.w,b.w); if(opc==Instruction::And) return vBool(cAnd(x,y),w); if(opc==Instruction::Or) return vBool(cOr(x,y),w); if(opc==Instruction::Xor){ if(y->k==C_TRUE) return vBool(cNot(x),w); if(x->k==C_TRUE) return vBool(cNot(y),w); if(y->k==C_FALSE) return vBool(x,w); if(x->k==C_FALSE) return vBool(y,w); return vBool(cOr(cAnd(x,cNot(y)),cAnd(cNot(x),y)),w); } } }
  // sign manipulation of real bit patterns
  if(a.k==V_BITS&&b.k==V_INT){ if(opc==Instruction::And&&b.i==0x7fffffffffffffffull){ Val r=a; r.p=rabs(P(a),"bits-abs"); return r; } if(opc==Instruction::Xor&&b.i==0x8000000000000000ull){ Val r=a; r.p=pNeg(P(a)); return r; } }
  a=needInt(a,"integer arithmetic"); b=needInt(b,"integer arithmetic"); unsigned w=a.w; uint64_t x=a.i,y=b.i; int64_t s=sx(a),t=sx(b);
  switch(opc){ case Instruction::Add:return vInt(x+y,w);case Instruction::Sub:return vInt(x-y,w);case Instruction::Mul:return vInt(x*y,w);case Instruction::UDiv:if(!y)event("ub","integer division by zero");return vInt(x/y,w);case Instruction::SDiv:if(!t)event("ub","integer division by zero");return vInt(s/t,w);case Instruction::URem:if(!y)event("ub","integer division by zero");return vInt(x%y,w);case Instruction::SRem:if(!t)event("ub","integer division by zero");return vInt(s%t,w);case Instruction::And:return vInt(x&y,w);case Instruction::Or:return vInt(x|y,w);case Instruction::Xor:return vInt(x^y,w);case Instruction::Shl:return vInt(y>=w?0:x<<y,w);case Instruction::LShr:return vInt(y>=w?0:x>>y,w);case Instruction::AShr:return vInt(y>=w?(s<0?~0ull:0):(uint64_t)(s>>y),w);} unsupported("int op"); }
static Poly havocSlot(const char*n){ static int k=0; g_havocked=true; return pAtom(newFresh(std::string(n)+"#"+std::to_string(k++))); }
static void doCall(Thread*t,Ins&in){ Frame&fr=t->st.back(); size_t na=in.ops.size()-1; std::vector<Val> args(na); for(size_t i=0;i<na;i++) args[i]=ev(fr,in.ops[i]); auto*cb=cast<CallBase>(in.I); Function*F=cb->getCalledFunction(); if(!F){ if(isa<InlineAsm>(cb->getCalledOperand())){ if(in.dst>=0) fr.regs[in.dst]=args.empty()?vUndef():args[0]; return; } Val fp=needInt(ev(fr,in.ops[na]),"indirect call"); auto it=g_faddr.find(fp.i); if(it==g_faddr.end()) event("memory","call through a bad function pointer"); F=it->second; }
  // by-value aggregates are passed as pointers to copies made by the caller at -O0 (byval)
  for(size_t i=0;i<na;i++) if(cb->isByValArgument(i)&&args[i].k==V_INT){ Type*bt=cb->getParamByValType(i); uint64_t n=g_dl->getTypeAllocSize(bt); uint64_t c=newObj(n,0,"byval"); memCopy(c,args[i].i,n); args[i]=vPtr(c); fr.dyn.push_back(c); }
  std::string n=F->getName().str(); Val ret; if(F->isDeclaration()||startsWith(n,"llvm.")||isIo(n)){ if(builtin(F,n,args,ret,in,fr)){ if(in.dst>=0) t->st.back().regs[in.dst]=ret;
        return; } unsupported("call to "+n); }
  if(g_loopHavoc&&F->getReturnType()->isDoubleTy()&&userFunction(n)&&prep(F)->hasIter){ bool in_=false; for(auto&x:t->st) if(!x.li.empty()) in_=true; if(in_){ if(in.dst>=0) fr.regs[in.dst]=vReal(havocSlot("step")); return; } }
  g_called.insert(n); pushCall(t,F,args,in.dst); }
static uint64_t slotAddr(Frame&f,const HSlot&s){ Val a=f.regs[s.reg]; if(a.k!=V_INT) return 0; if(!s.ref) return a.i; Val p=loadVal(a.i,8,T_INT); return p.k==V_INT?p.i:0; }
static bool smallExpr(const Poly&p,int d=0){ if(p->t.size()>4||d>3) return false; for(auto&t:p->t) for(auto&m:g_monos[t.first].f){ auto&a=g_atoms[m.first]; if(a.kind==A_INPUT||a.kind==A_FRESH||a.kind==A_SQRT) continue; if(a.kind==A_FUNC&&a.args.size()==1&&smallExpr(a.args[0],d+1)) continue; return false; } return true; }
static void loopEdge(Frame&f,int to){ if(!f.li.empty()){ LInst&x=f.li.back(); if(!x.L->body.count(to)){ if(x.mode==1) endPath("abstract iteration left the loop"); f.li.pop_back(); g_cheap=false; return; }
    if(x.mode!=1&&(to==x.L->hdr||!x.L->canExit.count(to))) endPath("abstract iteration");
    if(to==x.L->hdr){ struct S{uint64_t a; Val v; int m;}; std::vector<S> vs; for(auto&s:x.L->slots){ uint64_t a=slotAddr(f,s); if(!a) continue; Val v=loadVal(a,8,T_DBL); if(v.k==V_UNDEF) continue; if(v.k!=V_REAL) endPath("abstract iteration: not finite"); vs.push_back({a,v,signMask(P(v))}); }
      std::string key=std::to_string(x.inst); if(getenv("VP_VERBOSE")) for(auto&s:vs) fprintf(stderr,"[slot] mask %d keep %d %s\n",s.m,(int)smallExpr(P(s.v)),cStr(cRel(R_EQ,P(s.v))).substr(0,200).c_str()); for(auto&s:vs) key+= smallExpr(P(s.v))? "|"+cStr(cRel(R_EQ,P(s.v))): "|"+std::to_string(s.m); uint64_t hk=std::hash<std::string>()(key)|1; for(size_t i=hk%65536,n=0;n<65536;i=(i+1)%65536,n++){ uint64_t e=0; if(g_sh->seen[i].compare_exchange_strong(e,hk)) break; if(e==hk) endPath("abstract iteration: state covered"); }
      pcRestore(x.snap); for(auto&s:vs){ Poly h=P(s.v); if(!smallExpr(h)){ h=havocSlot("loop"); storeVal(s.a,vReal(h),8); } else if(s.m==7||pIsConst(h,nullptr)) continue; if(s.m==4) g_pc.add(cRel(R_LT,pNeg(h))); else if(!(s.m&1)) g_pc.add(cRel(R_LE,pNeg(h))); else if(s.m==1) g_pc.add(cRel(R_LT,h)); else if(!(s.m&4)) g_pc.add(cRel(R_LE,h)); }
      for(auto&s:x.L->counters){ uint64_t a=slotAddr(f,s); storeVal(a,vInt(11,32),4); } x.mode=2; }
    return; }
  for(auto&L:f.f->loops) if(L.hdr==to){ if(forkPath()){ f.li.push_back({&L,0,0,nullptr}); g_cheap=true; return; } g_cheap=true; auto sn=pcSave(); for(auto&s:L.slots){ uint64_t a=slotAddr(f,s); if(!a) continue; Val v=loadVal(a,8,T_DBL); if(v.k==V_UNDEF) continue; storeVal(a,vReal(havocSlot("iter")),8); } for(auto&s:L.counters){ uint64_t a=slotAddr(f,s); storeVal(a,vInt(10,32),4); } f.li.push_back({&L,1,++g_sh->loopInst,sn}); return; } }
static void jump(Frame&f,int to){ if(g_loopHavoc&&!f.f->loops.empty()) loopEdge(f,to); f.prev=f.bb; f.bb=to; f.ip=0; auto&ins=f.f->bb[to]; // phis
  std::vector<std::pair<int,Val>> upd; size_t k=0; while(k<ins.size()&&ins[k].opc==Instruction::PHI){ for(size_t i=0;i<ins[k].succ.size();i++) if(ins[k].succ[i]==f.prev){ upd.push_back({ins[k].dst,ev(f,ins[k].ops[i])}); break; } k++; } for(auto&u:upd) f.regs[u.first]=u.second; f.ip=k; }
static void runThread(Thread*t,size_t base){
  while(t->st.size()>base){ if(t->barrier) return; Frame&f=t->st.back(); Ins&in=f.f->bb[f.bb][f.ip++]; if(++g_insns%65536==0){ if(over()){ g_sh->limited++; endPath("budget"); } if(g_insns>g_maxInsns){ g_sh->limited++; endPath("insn-limit"); } }
    switch(in.opc){
      case Instruction::Alloca: if(in.aux){ f.regs[in.dst]=vPtr(f.stack+in.off); } else { Val n=needInt(ev(f,in.ops[0]),"alloca"); uint64_t a=newObj(n.i*in.off,0,"alloca"); f.dyn.push_back(a); f.regs[in.dst]=vPtr(a); } break;
      case Instruction::Load: { Val p=ev(f,in.ops[0]); if(p.k!=V_INT) event("uninit","read through an uninitialised pointer"); if(in.tk==T_AGG||(in.tk==T_INT&&in.ty->getIntegerBitWidth()<8)) f.regs[in.dst]=loadTyped(p.i,in.ty); else f.regs[in.dst]=loadVal(p.i,in.tsize,in.tk==T_PTR?T_INT:(TK)in.tk); break; }
      case Instruction::Store: { Val p=ev(f,in.ops[1]); if(p.k!=V_INT) event("uninit","write through an uninitialised pointer"); Val v=ev(f,in.ops[0]); if(in.tk==T_AGG||in.tk==T_FLT) storeTyped(p.i,in.ty,v); else storeVal(p.i,v,in.tsize); break; }
      case Instruction::GetElementPtr: { Val b=ev(f,in.ops[0]); if(b.k==V_UNDEF){ f.regs[in.dst]=b; break; } uint64_t a=needInt(b,"address").i+in.off; bool u=false; for(auto&g:in.gep){ Val x=ev(f,in.ops[g.first]); if(x.k==V_UNDEF){u=true;break;} x=needInt(x,"index"); a+=sx(x)*g.second; } f.regs[in.dst]=u?vUndef():vPtr(a); break; }
      case Instruction::FAdd: f.regs[in.dst]=rAdd(ev(f,in.ops[0]),ev(f,in.ops[1]),false); break; case Instruction::FSub: f.regs[in.dst]=rAdd(ev(f,in.ops[0]),ev(f,in.ops[1]),true); break; case Instruction::FMul: f.regs[in.dst]=rMul(ev(f,in.ops[0]),ev(f,in.ops[1])); break;
      case Instruction::FDiv:{ Val r=rDiv(ev(f,in.ops[0]),ev(f,in.ops[1])); t->st.back().regs[in.dst]=r; break; } case Instruction::FNeg: f.regs[in.dst]=rNeg(ev(f,in.ops[0])); break;
      case Instruction::FRem:{ std::vector<Val> a={ev(f,in.ops[0]),ev(f,in.ops[1])}; Val r; builtin(nullptr,"fmod",a,r,in,f); f.regs[in.dst]=r; break; }
      case Instruction::FCmp: f.regs[in.dst]=vFcmp(cast<FCmpInst>(in.I)->getPredicate(),ev(f,in.ops[0]),ev(f,in.ops[1])); break;
      case Instruction::ICmp: f.regs[in.dst]=icmp(cast<ICmpInst>(in.I)->getPredicate(),ev(f,in.ops[0]),ev(f,in.ops[1])); break;
      case Instruction::Add:case Instruction::Sub:case Instruction::Mul:case Instruction::UDiv:case Instruction::SDiv:case Instruction::URem:case Instruction::SRem:case Instruction::And:case Instruction::Or:case Instruction::Xor:case Instruction::Shl:case Instruction::LShr:case Instruction::AShr: f.regs[in.dst]=intOp(in.opc,ev(f,in.ops[0]),ev(f,in.ops[1])); break;
      case Instruction::ZExt:{ Val v=ev(f,in.ops[0]); unsigned w=in.ty->getIntegerBitWidth(); if(v.k==V_INT) v=vInt(v.i,w); else if(v.k==V_BOOL) v.w=w; f.regs[in.dst]=v; break; }
      case Instruction::SExt:{ Val v=ev(f,in.ops[0]); unsigned w=in.ty->getIntegerBitWidth(); if(v.k==V_BOOL) v=concretize(v,"sext"); if(v.k==V_INT) v=vInt((uint64_t)sx(v),w); f.regs[in.dst]=v; break; }
      case Instruction::Trunc:{ Val v=ev(f,in.ops[0]); unsigned w=in.ty->getIntegerBitWidth(); if(v.k==V_INT) v=vInt(v.i,w); else if(v.k==V_BOOL) v.w=w; else if(v.k==V_BITS) v=vInt(needInt(v,"trunc").i,w); f.regs[in.dst]=v; break; }
      case Instruction::PtrToInt:case Instruction::IntToPtr:{ Val v=ev(f,in.ops[0]); f.regs[in.dst]=v; break; }
      case Instruction::BitCast:{ Val v=ev(f,in.ops[0]); if(in.ty->isDoubleTy()){ if(v.k==V_BITS) v.k=V_REAL; else if(v.k==V_INT){ double d; memcpy(&d,&v.i,8); v=fromDouble(d);} } else if(in.ty->isIntegerTy(64)&&(v.k==V_REAL)){ mpq_class c; if(pIsConst(P(v),&c)) v=realBits(v); else v.k=V_BITS; } else if(in.ty->isIntegerTy(64)&&v.k==V_SPEC) v=realBits(v); f.regs[in.dst]=v; break; }
      case Instruction::SIToFP:case Instruction::UIToFP:{ Val v=ev(f,in.ops[0]); if(v.k==V_UNDEF){ f.regs[in.dst]=v; break; } if(v.k==V_BITS) v=needInt(v,"inttofp"); v=concretize(v,"int-to-real"); if(in.opc==Instruction::SIToFP) v=vReal(pConst(mpq_class((long)sx(v)))); else v=vReal(pConst(mpq_class((unsigned long)v.i))); f.regs[in.dst]=v; break; }
      case Instruction::FPToSI:case Instruction::FPToUI:{ Val v=ev(f,in.ops[0]); unsigned w=in.ty->getIntegerBitWidth(); if(v.k==V_UNDEF){ f.regs[in.dst]=v; break; } if(v.k==V_SPEC){ event("ub","conversion of a non-finite value to an integer"); } mpz_class z; intPart(v,2,z); if(!z.fits_slong_p()||(in.opc==Instruction::FPToSI&&w<64&&(z.get_si()>=(1L<<(w-1))||z.get_si()<-(1L<<(w-1))))||(in.opc==Instruction::FPToUI&&(z<0||(w<64&&z.get_si()>=(1L<<w))))) event("ub","real-to-integer conversion out of range: "+z.get_str()); t->st.back().regs[in.dst]=vInt((uint64_t)z.get_si(),w); break; }
      case Instruction::FPExt:case Instruction::FPTrunc:case Instruction::Freeze: f.regs[in.dst]=ev(f,in.ops[0]); break;
      case Instruction::Select:{ Val c=ev(f,in.ops[0]); Val x=ev(f,in.ops[1]),y=ev(f,in.ops[2]); if(c.k==V_UNDEF) event("uninit","selection on an uninitialised value"); if(c.k==V_BOOL&&(x.k==V_INT||x.k==V_BOOL)&&(y.k==V_INT||y.k==V_BOOL)&&x.w==1){ CondP cc=C(c); CondP xx=x.k==V_INT?(x.i?cTrue():cFalse()):C(x),yy=y.k==V_INT?(y.i?cTrue():cFalse()):C(y); f.regs[in.dst]=vBool(cOr(cAnd(cc,xx),cAnd(cNot(cc),yy))); break; } bool b=decide(condOf(c,"select"),"select"); f.regs[in.dst]=b?x:y; break; }
      case Instruction::Br: if(in.succ.size()==1) jump(f,in.succ[0]); else { Val c=ev(f,in.ops[0]); if(c.k==V_UNDEF) event("uninit","branch on an uninitialised value"); bool b; if(c.k!=V_INT&&!f.li.empty()&&f.li.back().mode==1&&f.li.back().L->body.count(f.bb)){ HLoop*L=f.li.back().L; auto on=[&](int k){ int t=in.succ[k]; return t==L->hdr||L->canLatch.count(t); }; if(on(0)!=on(1)) b=on(0); else b=decide(C(c),"branch"); } else b=c.k==V_INT?c.i!=0:decide(C(c),"branch"); jump(f,b?in.succ[0]:in.succ[1]); } break;
      case Instruction::Switch:{ Val v=needInt(ev(f,in.ops[0]),"switch"); auto*sw=cast<SwitchInst>(in.I); int k=in.succ.back(),i=0; for(auto c:sw->cases()){ if(c.getCaseValue()->getZExtValue()==v.i){ k=in.succ[i]; break; } i++; } jump(f,k); break; }
      case Instruction::Call: doCall(t,in); break;
      case Instruction::Invoke:{ size_t depth=t->st.size(); int nb=in.succ[0]; doCall(t,in); if(t->st.size()>depth) t->st[depth-1].pend=nb; else jump(t->st[depth-1],nb); break; }
      case Instruction::Ret:{ Val v; if(!in.ops.empty()) v=ev(f,in.ops[0]); int rr=f.retReg; freeStack(f.stack); for(uint64_t a:f.dyn){ Obj*o=objOf(a); o->live=false; } t->st.pop_back(); if(!t->st.empty()){ Frame&c=t->st.back(); if(rr>=0) c.regs[rr]=v; if(c.pend>=0){ int nb=c.pend; c.pend=-1; jump(c,nb); } } break; }
      case Instruction::ExtractValue:{ Val v=ev(f,in.ops[0]); for(unsigned ix:cast<ExtractValueInst>(in.I)->indices()){ if(v.k!=V_AGG) break; Val x=A(v)[ix]; v=x; } f.regs[in.dst]=v; break; }
      case Instruction::InsertValue:{ Val v=ev(f,in.ops[0]); Val x=ev(f,in.ops[1]); ArrayRef<unsigned> ids=cast<InsertValueInst>(in.I)->getIndices(); if(v.k!=V_AGG){ v=constVal(UndefValue::get(in.ty)); } std::function<Val(Val,unsigned)> ins=[&](Val cur,unsigned d)->Val{ if(d==ids.size()) return x; std::vector<Val> e=A(cur); e[ids[d]]=ins(e[ids[d]],d+1); return vAgg(e); }; f.regs[in.dst]=ins(v,0); break; }
      case Instruction::ExtractElement:{ Val v=ev(f,in.ops[0]); Val i=needInt(ev(f,in.ops[1]),"index"); f.regs[in.dst]=v.k==V_AGG?A(v)[i.i]:vUndef(); break; }
      case Instruction::InsertElement:{ Val v=ev(f,in.ops[0]); Val i=needInt(ev(f,in.ops[2]),"index"); if(v.k!=V_AGG) v=constVal(UndefValue::get(in.ty)); std::vector<Val> e=A(v); e[i.i]=ev(f,in.ops[1]); f.regs[in.dst]=vAgg(e); break; }
      case Instruction::AtomicRMW:{ auto*rm=cast<AtomicRMWInst>(in.I); Val p=needInt(ev(f,in.ops[0]),"address"); Val x=ev(f,in.ops[1]); Type*ty=rm->getValOperand()->getType(); t->crit++; Val old=loadTyped(p.i,ty); Val nv; switch(rm->getOperation()){ case AtomicRMWInst::Add:nv=intOp(Instruction::Add,old,x);break;case AtomicRMWInst::Sub:nv=intOp(Instruction::Sub,old,x);break;case AtomicRMWInst::Xchg:nv=x;break;case AtomicRMWInst::Or:nv=intOp(Instruction::Or,old,x);break;case AtomicRMWInst::And:nv=intOp(Instruction::And,old,x);break;case AtomicRMWInst::FAdd:nv=rAdd(old,x,false);break;case AtomicRMWInst::FSub:nv=rAdd(old,x,true);break; case AtomicRMWInst::UMax:nv=vInt(std::max(old.i,x.i),old.w);break; case AtomicRMWInst::Max:nv=sx(old)>sx(x)?old:x;break; default: unsupported("atomicrmw"); } storeTyped(p.i,ty,nv); t->crit--; f.regs[in.dst]=old; break; }
      case Instruction::AtomicCmpXchg:{ Val p=needInt(ev(f,in.ops[0]),"address"); Val e=ev(f,in.ops[1]),x=ev(f,in.ops[2]); Type*ty=cast<AtomicCmpXchgInst>(in.I)->getCompareOperand()->getType(); t->crit++; Val old=loadTyped(p.i,ty); Val eq=icmp(CmpInst::ICMP_EQ,old,e); if(eq.k==V_UNDEF) event("uninit","cmpxchg"); bool b=eq.k==V_INT?eq.i:decide(C(eq),"cmpxchg"); if(b) storeTyped(p.i,ty,x); t->crit--; f.regs[in.dst]=vAgg({old,vInt(b,1)}); break; }
      case Instruction::Fence: break;
      case Instruction::Unreachable: event("abort","unreachable code reached");
      case Instruction::LandingPad: case Instruction::Resume: event("exception","exception propagation");
      default: unsupported(std::string("instruction ")+in.I->getOpcodeName()); } } }
static Val callFunction(Function*F,const std::vector<Val>&args){ Thread*t=g_th; size_t base=t->st.size(); pushCall(t,F,args,-1); runThread(t,base); return vUndef(); }

int main(int argc,char**argv){ if(argc<4){ fprintf(stderr,"usage: symir module.bc entry out.jsonl [--jobs N] [--time S] [--branch S] [--assert S] [--dump dir] [--name-limit N]\n"); return 2; }
  int jobs=8; double tlim=600; for(int i=4;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return i+1<argc?argv[++i]:argv[i]; }; if(a=="--jobs") jobs=atoi(nx()); else if(a=="--time") tlim=atof(nx()); else if(a=="--branch") g_branchBudget=atof(nx()); else if(a=="--assert") g_assertBudget=atof(nx()); else if(a=="--dump") g_dumpDir=nx(); else if(a=="--name-limit") g_nameLimit=atol(nx()); else if(a=="--exact-const") g_exactConst=true; else if(a=="--max-insns") g_maxInsns=atol(nx()); }
  SMDiagnostic err; g_mod=parseIRFile(argv[1],err,g_ctx); if(!g_mod){ err.print("symir",errs()); return 2; } g_dl=&g_mod->getDataLayout();
  g_sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)g_sh,0,sizeof(Shared)); sem_init(&g_sh->sem,1,std::max(0,jobs-1)); g_out=open(argv[3],O_CREAT|O_TRUNC|O_WRONLY|O_APPEND,0644); double t0=nowS(); g_deadline=t0+tlim; g_obj.push_back(nullptr); // id 0 = null
  Function*E=g_mod->getFunction(argv[2]); if(!E||E->isDeclaration()){ fprintf(stderr,"symir: no entry %s\n",argv[2]); return 2; }
  signal(SIGALRM,onAlarm); pid_t root=fork(); if(root==0){ armAlarm(); Thread*t=new Thread(); g_th=t; 
    if(GlobalVariable*gc=g_mod->getGlobalVariable("llvm.global_ctors")) if(gc->hasInitializer()) if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())) for(auto&o:ca->operands()){ auto*s=cast<ConstantStruct>(o); if(auto*f=dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) callFunction(f,{}); }
    callFunction(E,{}); { std::string fl; int k=0; for(auto&n:g_called){ fl+=(k++?",\"":"\"")+jesc(n)+"\""; } emit("{\"type\":\"functions\",\"list\":["+fl+"]}"); } endPath("end"); }
  int st; waitpid(root,&st,0); bool crash=!(WIFEXITED(st)&&WEXITSTATUS(st)==0);
  std::ostringstream o; o<<"{\"type\":\"summary\",\"paths\":"<<g_sh->paths<<",\"forks\":"<<g_sh->forks<<",\"violations\":"<<g_sh->viol<<",\"asserts\":"<<g_sh->asserts<<",\"trivial\":"<<g_sh->trivial<<",\"unknown\":"<<g_sh->unknownAsserts<<",\"limited\":"<<g_sh->limited<<",\"crash\":"<<(crash?"true":"false")<<",\"wall\":"<<nowS()-t0<<"}"; emit(o.str()); printf("%s\n",o.str().c_str()); return crash?3:0; }
