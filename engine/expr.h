// Hash-consed symbolic expressions over bit-vectors and floating point, with
// constant folding, plus translation to Z3.  In "real" mode floating point
// values are exact reals (claims are then "up to rounding"); in "ieee" mode
// they are SMT FloatingPoint terms (bit-exact).
#pragma once
#include <z3.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

enum class FpMode { Real, Ieee };
extern FpMode g_fp;
extern bool g_abs;        // Ieee, with arithmetic abstracted to facts every correctly rounded operation satisfies

enum Op : uint8_t {
  CONST, VAR, AGG,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  CONCAT, EXTRACT, ZEXT, SEXT, EQ, ULT, ULE, SLT, SLE, ITE,
  FADD, FSUB, FMUL, FDIV, FNEG, FABS, FSQRT, FCEIL, FFLOOR, FTRUNCI, FROUNDI,
  FEQ, FLT, FLE, FISNAN, FUF,
  SITOFP, UITOFP, FPTOSI, FPTOUI, FPCVT, BITSOFF, FOFBITS, BYTEOFF, FREM_
};

struct Expr {
  Op op; bool isF; uint8_t w; bool big = false; // w: bv width, or 32/64 for F
  uint64_t c = 0;            // constant payload / extract low bit / UF id / var id
  Expr *k[3] = {nullptr, nullptr, nullptr};
  uint32_t id = 0;
  std::vector<Expr *> *agg = nullptr;
  Z3_ast z = nullptr;
  bool isConst() const { return op == CONST; }
};
typedef Expr *E;

struct VarInfo { std::string name; bool isF; uint8_t w; bool user; };
extern std::vector<VarInfo> g_vars;

E mkConst(uint64_t v, unsigned w);
E mkF(double d, unsigned w = 64);
E mkVar(const std::string &n, bool isF, unsigned w, bool user);
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkNot(E a);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkFBin(Op op, E a, E b);
E mkFUn(Op op, E a);
E mkFCmp(Op op, E a, E b);   // FEQ FLT FLE
E mkIsNan(E a);
E mkUF(int uf, E a, E b = nullptr);
E mkCvt(Op op, E a, bool isF, unsigned w);
E mkAgg(const std::vector<E> &v);
E mkByteOfF(E f, unsigned i);
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline bool isTrue(E e) { return e->op == CONST && e->w == 1 && !e->isF && e->c == 1; }
inline bool isFalse(E e) { return e->op == CONST && e->w == 1 && !e->isF && e->c == 0; }
double fval(E e);
int64_t sval(E e);
// possible constant values of a BV expression made of ites with constant leaves
bool leafValues(E e, std::set<uint64_t> &out, unsigned limit);

enum UFId { UF_EXP, UF_TANH, UF_LOG2, UF_LOG, UF_POW, UF_SQRT, UF_LOG10, UF_EXP2, UF_COUNT };
extern const char *ufName[];

extern Z3_context g_ctx;
void initZ3();
Z3_ast toZ3(E e);
struct UFApp { int uf; E a, b, app; };
extern std::vector<UFApp> g_ufApps;     // creation order
std::vector<Z3_ast> takeAxioms();
Z3_ast randRealOf(E v);                  // the real standing for a random draw, if it was used as a number       // axioms for UF applications not yet asserted
std::string exprStr(E e, int depth = 4);
extern std::string g_unsupported;       // set when an expression could not be translated
