// Conditions over polynomial terms, intervals, path condition and solver front end.
#pragma once
#include "poly.h"
#include <map>

enum Rel : uint8_t { R_EQ, R_NE, R_LT, R_LE }; // poly REL 0
enum CK : uint8_t { C_TRUE, C_FALSE, C_REL, C_AND, C_OR };
struct Cond; typedef std::shared_ptr<const Cond> CondP;
struct Cond { CK k; Rel r; Poly p; std::vector<CondP> c; };

CondP cTrue(); CondP cFalse();
CondP cRel(Rel r,const Poly&p);
CondP cNot(const CondP&);
CondP cAnd(const CondP&,const CondP&);
CondP cOr(const CondP&,const CondP&);
std::string cStr(const CondP&);
void cAtoms(const CondP&,std::unordered_set<Atom>&);

struct Iv { bool hl=false,hh=false; mpq_class lo,hi; bool ls=false,hs=false; };
Iv pInterval(const Poly&p);
Iv atomInterval(Atom a);

enum SolveR { S_SAT, S_UNSAT, S_UNKNOWN };
struct Model { std::map<Atom,double> v; std::map<Atom,std::string> exact; };

struct PathCond {
  std::vector<CondP> cs;
  // known sign masks for normalised polynomials: bit0 neg, bit1 zero, bit2 pos
  std::unordered_map<size_t,std::vector<std::pair<Poly,int>>> signs;
  void add(const CondP&c);
};
extern PathCond g_pc;
int signMask(const Poly&p);             // syntactic + interval + facts
int quick(const CondP&c);               // 1 true, 0 false, -1 unknown
SolveR satWith(const CondP&extra,Model*m,double budgetSec,const char*why); // sat(pc & extra)
double evalPoly(const Poly&p,const Model&m);
struct SolverStats { uint64_t queries=0,sat=0,unsat=0,unknown=0; double secs=0; uint64_t quick=0,trivial=0,cached=0; double maxsec=0; };
extern SolverStats g_ss;
extern double g_branchBudget,g_assertBudget;
extern std::string g_dumpDir;
extern bool g_cross; // thorough: cross-check unsat answers with cvc5
bool genuineModel(const CondP&n,Model&m);
bool findCex(const CondP&n,Model&m,bool have,double budget);
struct PcSnap; std::shared_ptr<PcSnap> pcSave(); void pcRestore(const std::shared_ptr<PcSnap>&);
void atomClosure(const Poly&p,std::unordered_set<Atom>&s);
