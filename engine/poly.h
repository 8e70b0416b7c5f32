// Sparse multivariate Laurent polynomials with exact rational coefficients over
// "atoms" (inputs and function applications), used as the canonical form of
// real-valued terms in the symbolic executor.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <stdexcept>

typedef uint32_t Atom;
typedef uint32_t MonoId;
struct PolyData;
typedef std::shared_ptr<const PolyData> Poly;

enum AtomKind { A_INPUT, A_SQRT, A_INV, A_FUNC, A_NAMED, A_FRESH };
struct AtomInfo {
  AtomKind kind;
  std::string name;         // input/fresh name, or function name
  std::vector<Poly> args;   // SQRT/INV/NAMED: [P]; FUNC: args
  mpq_class lo, hi; bool hasLo = false, hasHi = false; // declared bounds (inputs)
  bool nonneg = false;
};
struct Mono { std::vector<std::pair<Atom,int>> f; bool needsReduce=false; bool hasInv=false; bool hasNeg=false; };
struct PolyData {
  std::vector<std::pair<MonoId,mpq_class>> t; // sorted by MonoId, no zero coefs
  size_t hash = 0;
  bool hasInv=false;
};

extern std::vector<AtomInfo> g_atoms;
extern std::vector<Mono> g_monos;
extern size_t g_nameLimit;

Poly pConst(const mpq_class&c);
Poly pZero();
Poly pOne();
Poly pAtom(Atom a);
Poly pAdd(const Poly&,const Poly&);
Poly pSub(const Poly&,const Poly&);
Poly pNeg(const Poly&);
Poly pScale(const Poly&,const mpq_class&);
Poly pMul(const Poly&,const Poly&);
Poly pDiv(const Poly&a,const Poly&b); // b known nonzero
Poly pPowInt(const Poly&,int);
Poly pSqrt(const Poly&, bool&needAbs, Poly&absArg); // see poly.cpp
Poly pNameIfBig(const Poly&);
bool pIsConst(const Poly&, mpq_class*c=nullptr);
bool pIsZero(const Poly&);
bool pEq(const Poly&,const Poly&);
Poly pCancel(const Poly&);
Poly pExpandNamed(const Poly&);
bool pDivExact(const Poly&a,const Poly&b,Poly&q);
Atom newInput(const std::string&,bool hasLo,mpq_class lo,bool hasHi,mpq_class hi);
Atom newFresh(const std::string&);
Atom funcAtom(const std::string&,const std::vector<Poly>&);
void pAtoms(const Poly&,std::unordered_set<Atom>&);
std::string pStr(const Poly&,size_t maxTerms=40);
std::string atomStr(Atom);
double mpqToDouble(const mpq_class&);
mpq_class dblToMpq(double);
