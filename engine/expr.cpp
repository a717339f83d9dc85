#include "expr.h"
#include <unistd.h>
FpMode g_fp = FpMode::Real;
bool g_abs = false;
std::vector<VarInfo> g_vars;
std::vector<UFApp> g_ufApps;
std::string g_unsupported;
Z3_context g_ctx;
const char *ufName[] = {"exp", "tanh", "log2", "log", "pow", "sqrt", "log10", "exp2"};

namespace {
struct Key { Op op; bool isF; uint8_t w; uint64_t c; E k0, k1, k2; };
struct KeyHash {
  size_t operator()(const Key &k) const {
    uint64_t h = k.op * 0x9E3779B97F4A7C15ull ^ (uint64_t(k.w) << 8) ^ k.isF;
    auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(k.c); mix((uint64_t)k.k0); mix((uint64_t)k.k1); mix((uint64_t)k.k2);
    return h;
  }
};
struct KeyEq {
  bool operator()(const Key &a, const Key &b) const {
    return a.op == b.op && a.isF == b.isF && a.w == b.w && a.c == b.c && a.k0 == b.k0 && a.k1 == b.k1 && a.k2 == b.k2;
  }
};
std::unordered_map<Key, E, KeyHash, KeyEq> tab;
uint32_t nextId = 1;
E intern(Op op, bool isF, unsigned w, uint64_t c, E a = nullptr, E b = nullptr, E d = nullptr) {
  Key key{op, isF, (uint8_t)w, c, a, b, d};
  auto it = tab.find(key);
  if (it != tab.end()) return it->second;
  E e = new Expr();
  e->op = op; e->isF = isF; e->w = w; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->id = nextId++;
  tab.emplace(key, e);
  return e;
}
inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
double bitsd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
} // namespace

E mkConst(uint64_t v, unsigned w) {
  if (w > 64) { g_unsupported = "integer wider than 64 bits"; w = 64; }
  return intern(CONST, false, w, v & mask(w));
}
E mkF(double d, unsigned w) { if (w == 32) d = (float)d; return intern(CONST, true, w, dbits(d)); }
double fval(E e) { return bitsd(e->c); }
int64_t sval(E e) { if (e->w >= 64) return (int64_t)e->c; uint64_t m = 1ull << (e->w - 1); return (int64_t)((e->c ^ m) - m); }
E mkVar(const std::string &n, bool isF, unsigned w, bool user) {
  g_vars.push_back({n, isF, (uint8_t)w, user});
  return intern(VAR, isF, w, g_vars.size() - 1);
}
E mkAgg(const std::vector<E> &v) {
  E e = new Expr(); e->op = AGG; e->isF = false; e->w = 0; e->id = nextId++; e->agg = new std::vector<E>(v); return e;
}
E mkNot(E a) {
  if (a->isConst()) return mkConst(!a->c, 1);
  if (a->op == XOR && a->k[1]->isConst() && a->k[1]->c == 1) return a->k[0];
  return intern(XOR, false, 1, 0, a, mkConst(1, 1));
}
static bool foldBV(Op op, uint64_t a, uint64_t b, unsigned w, uint64_t &r) {
  auto s = [&](uint64_t v) -> int64_t { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); return (int64_t)((v ^ m) - m); };
  switch (op) {
  case ADD: r = a + b; break; case SUB: r = a - b; break; case MUL: r = a * b; break;
  case UDIV: if (!b) return false; r = a / b; break;
  case UREM: if (!b) return false; r = a % b; break;
  case SDIV: if (!b) return false; if (s(b) == -1) r = 0 - a; else r = (uint64_t)(s(a) / s(b)); break;
  case SREM: if (!b) return false; if (s(b) == -1) r = 0; else r = (uint64_t)(s(a) % s(b)); break;
  case AND: r = a & b; break; case OR: r = a | b; break; case XOR: r = a ^ b; break;
  case SHL: r = b >= w ? 0 : a << b; break;
  case LSHR: r = b >= w ? 0 : a >> b; break;
  case ASHR: r = (uint64_t)(s(a) >> (b >= w ? w - 1 : b)); break;
  case EQ: r = a == b; break; case ULT: r = a < b; break; case ULE: r = a <= b; break;
  case SLT: r = s(a) < s(b); break; case SLE: r = s(a) <= s(b); break;
  default: return false;
  }
  return true;
}
static bool isCmp(Op op) { return op >= EQ && op <= SLE; }
static bool constLeaves(E e, int &n) {
  if (e->isConst()) return --n >= 0;
  if (e->op == ITE) return constLeaves(e->k[1], n) && constLeaves(e->k[2], n);
  return false;
}
static bool smallConstIte(E e) { if (e->op != ITE) return false; int n = 64; return constLeaves(e, n); }
E mkBin(Op op, E a, E b) {
  unsigned w = a->w, rw = isCmp(op) ? 1 : w;
  if (a->isConst() && b->isConst()) { uint64_t r; if (foldBV(op, a->c, b->c, w, r)) return mkConst(r, rw); }
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
  if (comm && a->isConst()) std::swap(a, b);
  if (b->isConst()) {
    uint64_t c = b->c;
    switch (op) {
    case ADD: case SUB: case OR: case SHL: case LSHR: case ASHR: if (c == 0) return a; break;
    case XOR: if (c == 0) return a; if (w == 1) return mkNot(a); break;
    case MUL: if (c == 0) return b; if (c == 1) return a; break;
    case UDIV: case SDIV: if (c == 1) return a; break;
    case AND: if (c == 0) return b; if (c == mask(w)) return a; break;
    case EQ: if (w == 1) return c ? a : mkNot(a); break;
    default: break;
    }
    if (op == OR && c == mask(w)) return b;
    if (op == SUB) return mkBin(ADD, a, mkConst(0 - c, w));
    if (op == ADD && a->op == ADD && a->k[1]->isConst()) return mkBin(ADD, a->k[0], mkConst(a->k[1]->c + c, w));
    if (op == EQ && a->op == ZEXT) {
      unsigned iw = a->k[0]->w;
      if (c & ~mask(iw)) return mkFalse();
      return mkBin(EQ, a->k[0], mkConst(c, iw));
    }
    if (op == EQ && a->op == ADD && a->k[1]->isConst()) return mkBin(EQ, a->k[0], mkConst(c - a->k[1]->c, w));
    if (op == ULT && c == 0) return mkFalse();
    if (op == ULT && c == 1) return mkBin(EQ, a, mkConst(0, w));
  }
  // a zero-extended value lies in 0..2^n-1: comparisons with constants outside are decided
  if ((op == ULT || op == ULE || op == SLT || op == SLE) && w > 1) {
    bool az = a->op == ZEXT && b->isConst(), bz = b->op == ZEXT && a->isConst(); E zx = az ? a : b;
    if ((az || bz) && zx->k[0]->w < w) {
      uint64_t hi = mask(zx->k[0]->w), lo = 0, cc = (az ? b : a)->c; uint64_t rl, rh;
      bool ok = az ? foldBV(op, lo, cc, w, rl) && foldBV(op, hi, cc, w, rh) : foldBV(op, cc, lo, w, rl) && foldBV(op, cc, hi, w, rh);
      if (ok && rl == rh) return mkConst(rl, 1); // monotone on 0..2^n-1, no sign change inside
    }
  }
  if (a == b) {
    switch (op) {
    case SUB: case XOR: return mkConst(0, w);
    case AND: case OR: return a;
    case EQ: case ULE: case SLE: return mkTrue();
    case ULT: case SLT: return mkFalse();
    default: break;
    }
  }
  // push through ites with constant leaves, so addresses stay explicit
  if (b->isConst() && smallConstIte(a)) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (a->isConst() && smallConstIte(b)) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
  if (a->op == ITE && b->op == ITE && a->k[0] == b->k[0]) {
    if (smallConstIte(a) && smallConstIte(b)) return mkIte(a->k[0], mkBin(op, a->k[1], b->k[1]), mkBin(op, a->k[2], b->k[2]));
  }
  if (smallConstIte(a) && smallConstIte(b) && op != EQ) {
    int na = 8, nb = 8;
    if (constLeaves(a, na) && constLeaves(b, nb)) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  }
  if (w == 1 && !isCmp(op)) {
    if (op == AND) { if (a == mkNot(b)) return mkFalse(); }
    if (op == OR) { if (a == mkNot(b)) return mkTrue(); }
  }
  if (comm && a->id > b->id && !b->isConst()) std::swap(a, b);
  return intern(op, false, rw, 0, a, b);
}
E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == XOR && c->k[1]->isConst() && c->k[1]->c == 1) return mkIte(c->k[0], b, a);
  if (a->op == AGG) {
    std::vector<E> v; for (size_t i = 0; i < a->agg->size(); i++) v.push_back(mkIte(c, (*a->agg)[i], (*b->agg)[i]));
    return mkAgg(v);
  }
  if (!a->isF && a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mkBin(OR, c, b);
    if (isFalse(a)) return mkBin(AND, mkNot(c), b);
    if (isTrue(b)) return mkBin(OR, mkNot(c), a);
    if (isFalse(b)) return mkBin(AND, c, a);
  }
  if (a->op == ITE && a->k[0] == c) a = a->k[1];
  if (b->op == ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return intern(ITE, a->isF, a->w, 0, c, a, b);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (a->isConst()) return mkConst(a->c >> lo, w);
  if (a->op == EXTRACT) return mkExtract(a->k[0], a->c + lo, w);
  if (a->op == CONCAT) {
    unsigned lw = a->k[1]->w;
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
  }
  if (a->op == ZEXT || a->op == SEXT) {
    unsigned iw = a->k[0]->w;
    if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
    if (a->op == ZEXT && lo >= iw) return mkConst(0, w);
    if (a->op == ZEXT && lo == 0) return mkZext(a->k[0], w);
    if (a->op == SEXT && lo == 0) return mkSext(a->k[0], w);
  }
  if (a->op == BITSOFF && w == 8 && lo % 8 == 0) return mkByteOfF(a->k[0], lo / 8);
  if (smallConstIte(a)) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
  if (lo == 0 && (a->op == ADD || a->op == SUB || a->op == MUL || a->op == AND || a->op == OR || a->op == XOR))
    return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
  return intern(EXTRACT, false, w, lo, a);
}
E mkByteOfF(E f, unsigned i) {
  if (f->isConst()) {
    uint64_t bits;
    if (f->w == 32) { float g = (float)fval(f); uint32_t u; memcpy(&u, &g, 4); bits = u; } else bits = f->c;
    return mkConst(bits >> (8 * i), 8);
  }
  return intern(BYTEOFF, false, 8, i, f);
}
E mkConcat(E hi, E lo) {
  if (hi->w + lo->w > 64) { g_unsupported = "concat wider than 64 bits"; return mkConst(0, 64); }
  if (hi->isConst() && lo->isConst()) return mkConst((hi->c << lo->w) | lo->c, hi->w + lo->w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return mkExtract(hi->k[0], lo->c, hi->w + lo->w);
  if (hi->op == EXTRACT && hi->k[0] == lo && hi->c == lo->w) return mkExtract(lo, 0, hi->w + lo->w);
  if (hi->isConst() && hi->c == 0) return mkZext(lo, hi->w + lo->w);
  return intern(CONCAT, false, hi->w + lo->w, 0, hi, lo);
}
E mkZext(E a, unsigned w) {
  if (w > 64) { g_unsupported = "zext wider than 64 bits"; w = 64; }
  if (a->w == w) return a;
  if (a->isConst()) return mkConst(a->c, w);
  if (a->op == ZEXT) return mkZext(a->k[0], w);
  if (a->w == 1) return mkIte(a, mkConst(1, w), mkConst(0, w));
  if (smallConstIte(a)) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  return intern(ZEXT, false, w, 0, a);
}
E mkSext(E a, unsigned w) {
  if (w > 64) { g_unsupported = "sext wider than 64 bits"; w = 64; }
  if (a->w == w) return a;
  if (a->isConst()) return mkConst((uint64_t)sval(a), w);
  if (a->op == ZEXT) return mkZext(a->k[0], w);
  if (a->op == SEXT) return mkSext(a->k[0], w);
  if (a->w == 1) return mkIte(a, mkConst(~0ull, w), mkConst(0, w));
  if (smallConstIte(a)) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return intern(SEXT, false, w, 0, a);
}
static double rnd(double d, unsigned w) { return w == 32 ? (double)(float)d : d; }
E mkFBin(Op op, E a, E b) {
  unsigned w = a->w;
  if (a->isConst() && b->isConst()) {
    double x = fval(a), y = fval(b), r = 0;
    if (w == 32) {
      float fx = (float)x, fy = (float)y;
      switch (op) { case FADD: r = fx + fy; break; case FSUB: r = fx - fy; break; case FMUL: r = fx * fy; break; case FDIV: r = fx / fy; break; case FREM_: r = fmodf(fx, fy); break; default: break; }
    } else
      switch (op) { case FADD: r = x + y; break; case FSUB: r = x - y; break; case FMUL: r = x * y; break; case FDIV: r = x / y; break; case FREM_: r = fmod(x, y); break; default: break; }
    return mkF(rnd(r, w), w);
  }
  if (g_fp == FpMode::Real) {
    auto c = [](E e, double v) { return e->isConst() && fval(e) == v; };
    if (op == FADD) { if (c(a, 0)) return b; if (c(b, 0)) return a; }
    if (op == FSUB) { if (c(b, 0)) return a; if (a == b) return mkF(0, w); }
    if (op == FMUL) { if (c(a, 0)) return a; if (c(b, 0)) return b; if (c(a, 1)) return b; if (c(b, 1)) return a; }
    if (op == FDIV) {
      if (c(b, 1)) return a; if (c(a, 0)) return a;
      if (b->isConst() && std::isinf(fval(b))) return mkF(0, w);
    }
  } else {
    if (op == FMUL && b->isConst() && fval(b) == 1) return a;
    if (op == FMUL && a->isConst() && fval(a) == 1) return b;
  }
  if ((op == FADD || op == FMUL) && a->id > b->id) std::swap(a, b);
  return intern(op, true, w, 0, a, b);
}
E mkFUn(Op op, E a) {
  unsigned w = a->w;
  if (a->isConst()) {
    double x = fval(a), r = x;
    switch (op) {
    case FNEG: r = -x; break; case FABS: r = fabs(x); break; case FSQRT: r = w == 32 ? (double)sqrtf((float)x) : sqrt(x); break;
    case FCEIL: r = ceil(x); break; case FFLOOR: r = floor(x); break; case FTRUNCI: r = trunc(x); break; case FROUNDI: r = nearbyint(x); break;
    default: break;
    }
    return mkF(r, w);
  }
  if (op == FNEG && a->op == FNEG) return a->k[0];
  if (op == FSQRT && g_fp == FpMode::Real) return mkUF(UF_SQRT, a);
  return intern(op, true, w, 0, a);
}
E mkFCmp(Op op, E a, E b) {
  if (a->isConst() && b->isConst()) {
    double x = fval(a), y = fval(b);
    return mkConst(op == FEQ ? x == y : op == FLT ? x < y : x <= y, 1);
  }
  if (g_fp == FpMode::Real) {
    if (a == b) return op == FLT ? mkFalse() : mkTrue();
    for (int s = 0; s < 2; s++) {
      E k = s ? b : a;
      if (k->isConst() && !std::isfinite(fval(k))) {
        double v = fval(k);
        if (std::isnan(v) || op == FEQ) return mkFalse();
        bool neg = v < 0;
        return mkConst(s == 0 ? neg : !neg, 1);
      }
    }
  }
  if (op == FEQ && a->id > b->id) std::swap(a, b);
  return intern(op, false, 1, 0, a, b);
}
E mkIsNan(E a) {
  if (a->isConst()) return mkConst(std::isnan(fval(a)), 1);
  if (g_fp == FpMode::Real) return mkFalse();
  return intern(FISNAN, false, 1, 0, a);
}
E mkUF(int uf, E a, E b) {
  if (a->isConst() && (!b || b->isConst())) {
    double x = fval(a), r = 0; bool f = a->w == 32;
    switch (uf) {
    case UF_EXP: r = f ? expf(x) : exp(x); break; case UF_TANH: r = f ? tanhf(x) : tanh(x); break; case UF_LOG2: r = f ? log2f(x) : log2(x); break;
    case UF_LOG: r = f ? logf(x) : log(x); break; case UF_POW: r = f ? powf(x, fval(b)) : pow(x, fval(b)); break; case UF_SQRT: r = f ? sqrtf(x) : sqrt(x); break;
    case UF_LOG10: r = f ? log10f(x) : log10(x); break; case UF_EXP2: r = f ? exp2f(x) : exp2(x); break;
    }
    return mkF(r, a->w);
  }
  if (uf == UF_POW && b->isConst() && g_fp == FpMode::Real) {
    double p = fval(b);
    if (p == 1) return a; if (p == 2) return mkFBin(FMUL, a, a); if (p == 3) return mkFBin(FMUL, a, mkFBin(FMUL, a, a));
    if (p == 0.5) return mkUF(UF_SQRT, a);
  }
  size_t before = nextId;
  E e = intern(FUF, true, a->w, uf, a, b);
  if (e->id >= before) g_ufApps.push_back({uf, a, b, e});
  return e;
}
E mkCvt(Op op, E a, bool isF, unsigned w) {
  if (!isF && w > 64) { g_unsupported = "conversion wider than 64 bits"; w = 64; }
  if (a->isConst()) switch (op) {
    case SITOFP: return w == 32 ? mkF((float)sval(a), 32) : mkF((double)sval(a), 64);
    case UITOFP: return w == 32 ? mkF((float)a->c, 32) : mkF((double)a->c, 64);
    case FPCVT: return mkF(fval(a), w);
    case FPTOSI: { double v = trunc(fval(a)); if (std::isfinite(v) && fabs(v) < 9.2e18) return mkConst((uint64_t)(int64_t)v, w); return mkConst(1ull << (w - 1), w); }
    case FPTOUI: { double v = trunc(fval(a)); if (std::isfinite(v) && v >= 0 && v < 1.8e19) return mkConst((uint64_t)v, w); return mkConst(0, w); }
    case BITSOFF: { if (a->w == 32) { float g = (float)fval(a); uint32_t u; memcpy(&u, &g, 4); return mkConst(u, 32); } return mkConst(a->c, 64); }
    case FOFBITS: { if (w == 32) { uint32_t u = a->c; float g; memcpy(&g, &u, 4); return mkF(g, 32); } return intern(CONST, true, 64, a->c); }
    default: break;
  }
  if (op == BITSOFF && a->op == FOFBITS && a->k[0]->w == w) return a->k[0];
  if (op == FOFBITS && a->op == BITSOFF && a->k[0]->w == w) return a->k[0];
  if (op == FPCVT) {
    if (a->w == w) return a;
    if (g_fp == FpMode::Real) { if (a->op == FPCVT && a->k[0]->w == w) return a->k[0]; }
    else if (a->op == FPCVT && a->k[0]->w == w && w < a->w) return a->k[0];
  }
  if ((op == SITOFP || op == UITOFP || op == FOFBITS) && smallConstIte(a)) return mkIte(a->k[0], mkCvt(op, a->k[1], isF, w), mkCvt(op, a->k[2], isF, w));
  if ((op == FPTOSI || op == FPTOUI || op == BITSOFF) && a->op == ITE) {
    int n = 16; if (constLeaves(a, n)) return mkIte(a->k[0], mkCvt(op, a->k[1], isF, w), mkCvt(op, a->k[2], isF, w));
  }
  return intern(op, isF, w, 0, a);
}
static bool leafRec(E e, std::set<uint64_t> &out, unsigned limit, std::unordered_map<E, bool> &seen) {
  if (seen.count(e)) return true;
  seen[e] = true;
  if (e->isConst()) { out.insert(e->c); return out.size() <= limit; }
  if (e->op == ITE) return leafRec(e->k[1], out, limit, seen) && leafRec(e->k[2], out, limit, seen);
  return false;
}
static bool leafEval(E e, std::set<uint64_t> &out, unsigned limit, int depth) {
  std::unordered_map<E, bool> seen;
  std::set<uint64_t> s;
  if (leafRec(e, s, limit, seen)) { out = s; return true; }
  if (depth <= 0) return false;
  if (e->op == ITE) {
    std::set<uint64_t> a, b;
    if (!leafEval(e->k[1], a, limit, depth - 1) || !leafEval(e->k[2], b, limit, depth - 1)) return false;
    out = a; out.insert(b.begin(), b.end()); return out.size() <= limit;
  }
  if (e->op == ZEXT || e->op == SEXT || e->op == EXTRACT) {
    std::set<uint64_t> a;
    if (!leafEval(e->k[0], a, limit, depth - 1)) return false;
    for (uint64_t v : a) {
      E c = mkConst(v, e->k[0]->w);
      out.insert((e->op == ZEXT ? mkZext(c, e->w) : e->op == SEXT ? mkSext(c, e->w) : mkExtract(c, e->c, e->w))->c);
    }
    return true;
  }
  if (e->op == ADD || e->op == SUB || e->op == MUL || e->op == SHL || e->op == AND || e->op == OR) {
    std::set<uint64_t> a, b;
    if (!leafEval(e->k[0], a, limit, depth - 1) || !leafEval(e->k[1], b, limit, depth - 1)) return false;
    if (a.size() * b.size() > 4096) return false;
    for (uint64_t x : a) for (uint64_t y : b) {
      uint64_t r; if (!foldBV(e->op, x, y, e->w, r)) return false;
      out.insert(r & mask(e->w));
    }
    return out.size() <= limit;
  }
  return false;
}
bool leafValues(E e, std::set<uint64_t> &out, unsigned limit) { return leafEval(e, out, limit, 12); }

// ---------------------------------------------------------------- Z3
static Z3_sort realS, intS, f32S, f64S; static Z3_ast rne, rtz, rtp, rtn;
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(70); }
void initZ3() {
  Z3_config cfg = Z3_mk_config();
  Z3_global_param_set("smt.random_seed", "1");
  g_ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(g_ctx, z3err);
  realS = Z3_mk_real_sort(g_ctx); intS = Z3_mk_int_sort(g_ctx);
  f32S = Z3_mk_fpa_sort_32(g_ctx); f64S = Z3_mk_fpa_sort_64(g_ctx);
  rne = Z3_mk_fpa_rne(g_ctx); rtz = Z3_mk_fpa_rtz(g_ctx); rtp = Z3_mk_fpa_rtp(g_ctx); rtn = Z3_mk_fpa_rtn(g_ctx);
}
static Z3_sort bvS(unsigned w) { return Z3_mk_bv_sort(g_ctx, w); }
static Z3_sort fS(unsigned w) { return g_fp == FpMode::Real ? realS : (w == 32 ? f32S : f64S); }
static Z3_ast ratOf(double d) {
  if (!std::isfinite(d)) { g_unsupported = "non-finite constant in real arithmetic"; d = 0; }
  int ex; double m = frexp(d, &ex); // d = m*2^ex
  long long im = (long long)ldexp(m, 53); ex -= 53;
  while (im && !(im & 1) && ex < 0) { im >>= 1; ex++; }
  char b[64]; snprintf(b, sizeof b, "%lld", im);
  Z3_ast n = Z3_mk_numeral(g_ctx, b, realS);
  if (ex == 0 || im == 0) return n;
  Z3_ast p = Z3_mk_numeral(g_ctx, "2", realS);
  // 2^|ex| as a decimal string via repeated doubling
  std::string dec = "1";
  for (int i = 0; i < abs(ex); i++) { int carry = 0; for (int j = (int)dec.size() - 1; j >= 0; j--) { int v = (dec[j] - '0') * 2 + carry; dec[j] = '0' + v % 10; carry = v / 10; } if (carry) dec.insert(dec.begin(), '0' + carry); }
  std::string s;
  if (ex < 0) { s = std::string(b) + "/" + dec; return Z3_mk_numeral(g_ctx, s.c_str(), realS); }
  p = Z3_mk_numeral(g_ctx, dec.c_str(), realS);
  Z3_ast args[2] = {n, p}; return Z3_simplify(g_ctx, Z3_mk_mul(g_ctx, 2, args));
}
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(g_ctx, b, Z3_mk_unsigned_int(g_ctx, 1, bvS(1)), Z3_mk_unsigned_int(g_ctx, 0, bvS(1))); }
static bool zIsBool(Z3_ast a) { return Z3_get_sort_kind(g_ctx, Z3_get_sort(g_ctx, a)) == Z3_BOOL_SORT; }
static Z3_ast asB(Z3_ast a) { return zIsBool(a) ? a : Z3_mk_eq(g_ctx, a, Z3_mk_unsigned_int(g_ctx, 1, bvS(1))); }
static Z3_ast asBV(Z3_ast a) { return zIsBool(a) ? b2bv(a) : a; }
static Z3_func_decl ufDecl(int uf, unsigned w, bool two) {
  static std::map<std::pair<int, unsigned>, Z3_func_decl> m;
  auto &d = m[{uf, w}];
  if (!d) { std::string n = std::string(ufName[uf]) + "_" + std::to_string(w); Z3_sort s = fS(w); Z3_sort dom[2] = {s, s}; d = Z3_mk_func_decl(g_ctx, Z3_mk_string_symbol(g_ctx, n.c_str()), two ? 2 : 1, dom, s); }
  return d;
}
// a random draw used as a number: a real between 0 and RAND_MAX (an odd number, so never exactly its half)
static std::map<uint64_t, Z3_ast> g_randReal; static std::vector<Z3_ast> g_randAx;
Z3_ast randRealOf(E v) { auto i = g_randReal.find(v->c); return i == g_randReal.end() ? nullptr : i->second; }
static Z3_ast randReal(E v) {
  Z3_context c = g_ctx; auto &z = g_randReal[v->c]; if (z) return z;
  std::string n = "rr" + std::to_string(v->c); z = Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), realS);
  auto N = [&](long x) { return Z3_mk_int64(c, x, realS); };
  g_randAx.push_back(Z3_mk_ge(c, z, N(0))); g_randAx.push_back(Z3_mk_le(c, z, N(2147483647)));
  Z3_ast o[2] = {Z3_mk_le(c, z, N(1073741823)), Z3_mk_ge(c, z, N(1073741824))}; g_randAx.push_back(Z3_mk_or(c, 2, o)); return z;
}
static std::vector<E> g_absApps; static size_t absDone = 0;
// width-1 bit-vectors are translated to Bool
static Z3_ast truncInt(Z3_ast r) {
  Z3_context c = g_ctx; Z3_ast neg = Z3_mk_unary_minus(c, Z3_mk_real2int(c, Z3_mk_unary_minus(c, r)));
  return Z3_mk_ite(c, Z3_mk_lt(c, r, Z3_mk_int(c, 0, realS)), neg, Z3_mk_real2int(c, r));
}
static Z3_ast tr(E e) {
  Z3_context c = g_ctx;
  auto z = [&](int i) { return e->k[i]->z; };
  auto bv = [&](int i) { return asBV(e->k[i]->z); };
  switch (e->op) {
  case CONST:
    if (e->isF) {
      if (g_fp == FpMode::Real) return ratOf(fval(e));
      return e->w == 32 ? Z3_mk_fpa_numeral_float(c, (float)fval(e), f32S) : Z3_mk_fpa_numeral_double(c, fval(e), f64S);
    }
    if (e->w == 1) return e->c ? Z3_mk_true(c) : Z3_mk_false(c);
    return Z3_mk_unsigned_int64(c, e->c, bvS(e->w));
  case VAR: {
    std::string n = "v" + std::to_string(e->c);
    return Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), e->isF ? fS(e->w) : e->w == 1 ? Z3_mk_bool_sort(c) : bvS(e->w));
  }
  case ADD: return Z3_mk_bvadd(c, bv(0), bv(1)); case SUB: return Z3_mk_bvsub(c, bv(0), bv(1)); case MUL: return Z3_mk_bvmul(c, bv(0), bv(1));
  case UDIV: return Z3_mk_bvudiv(c, bv(0), bv(1)); case SDIV: return Z3_mk_bvsdiv(c, bv(0), bv(1));
  case UREM: return Z3_mk_bvurem(c, bv(0), bv(1)); case SREM: return Z3_mk_bvsrem(c, bv(0), bv(1));
  case AND: { if (e->w == 1) { Z3_ast a[2] = {asB(z(0)), asB(z(1))}; return Z3_mk_and(c, 2, a); } return Z3_mk_bvand(c, bv(0), bv(1)); }
  case OR: { if (e->w == 1) { Z3_ast a[2] = {asB(z(0)), asB(z(1))}; return Z3_mk_or(c, 2, a); } return Z3_mk_bvor(c, bv(0), bv(1)); }
  case XOR: if (e->w == 1) { if (isTrue(e->k[1])) return Z3_mk_not(c, asB(z(0))); return Z3_mk_xor(c, asB(z(0)), asB(z(1))); } return Z3_mk_bvxor(c, bv(0), bv(1));
  case SHL: return Z3_mk_bvshl(c, bv(0), bv(1)); case LSHR: return Z3_mk_bvlshr(c, bv(0), bv(1)); case ASHR: return Z3_mk_bvashr(c, bv(0), bv(1));
  case CONCAT: return Z3_mk_concat(c, bv(0), bv(1));
  case EXTRACT: { Z3_ast r = Z3_mk_extract(c, e->c + e->w - 1, e->c, bv(0)); return e->w == 1 ? asB(r) : r; }
  case ZEXT: return Z3_mk_zero_ext(c, e->w - e->k[0]->w, bv(0)); case SEXT: return Z3_mk_sign_ext(c, e->w - e->k[0]->w, bv(0));
  case EQ: return Z3_mk_eq(c, z(0), z(1));
  case ULT: return Z3_mk_bvult(c, bv(0), bv(1)); case ULE: return Z3_mk_bvule(c, bv(0), bv(1));
  case SLT: return Z3_mk_bvslt(c, bv(0), bv(1)); case SLE: return Z3_mk_bvsle(c, bv(0), bv(1));
  case ITE: return Z3_mk_ite(c, asB(z(0)), z(1), z(2));
  default: break;
  }
  if (g_fp == FpMode::Real) {
    Z3_ast a[2]; a[0] = e->k[0] ? z(0) : nullptr; a[1] = e->k[1] ? z(1) : nullptr;
    Z3_ast zero = Z3_mk_int(c, 0, realS);
    switch (e->op) {
    case FADD: return Z3_mk_add(c, 2, a); case FSUB: return Z3_mk_sub(c, 2, a); case FMUL: return Z3_mk_mul(c, 2, a); case FDIV: return Z3_mk_div(c, a[0], a[1]);
    case FNEG: return Z3_mk_unary_minus(c, a[0]);
    case FABS: return Z3_mk_ite(c, Z3_mk_lt(c, a[0], zero), Z3_mk_unary_minus(c, a[0]), a[0]);
    case FEQ: return Z3_mk_eq(c, a[0], a[1]); case FLT: return Z3_mk_lt(c, a[0], a[1]); case FLE: return Z3_mk_le(c, a[0], a[1]);
    case FUF: return Z3_mk_app(c, ufDecl(e->c, e->w, e->k[1] != nullptr), e->k[1] ? 2 : 1, a);
    case SITOFP: case UITOFP: {
      unsigned w = e->k[0]->w; Z3_ast b = bv(0);
      if (e->k[0]->op == VAR && g_vars[e->k[0]->c].name == "rand") return randReal(e->k[0]);
      // an integer that came from a real number stays in arithmetic: no bit vectors in between
      E s = e->k[0]; bool sx = e->op == SITOFP;
      if (s->op == ZEXT || (s->op == SEXT && sx)) { sx = s->op == SEXT; s = s->k[0]; }
      if (s->op == FPTOSI || s->op == FPTOUI) {
        Z3_ast t = truncInt(s->k[0]->z), m = Z3_mk_numeral(c, s->w >= 64 ? "18446744073709551616" : std::to_string(1ull << s->w).c_str(), Z3_mk_int_sort(c));
        if (!sx) return Z3_mk_int2real(c, Z3_mk_mod(c, t, m));
        Z3_ast h = Z3_mk_numeral(c, std::to_string(1ull << (s->w - 1)).c_str(), Z3_mk_int_sort(c)), u[2] = {t, h}; Z3_ast v[2] = {Z3_mk_mod(c, Z3_mk_add(c, 2, u), m), h};
        return Z3_mk_int2real(c, Z3_mk_sub(c, 2, v));
      }
      return Z3_mk_int2real(c, Z3_mk_bv2int(c, b, e->op == SITOFP)); (void)w;
    }
    case FPTOSI: case FPTOUI: return Z3_mk_int2bv(c, e->w, truncInt(a[0]));
    case FFLOOR: return Z3_mk_int2real(c, Z3_mk_real2int(c, a[0]));
    case FCEIL: return Z3_mk_unary_minus(c, Z3_mk_int2real(c, Z3_mk_real2int(c, Z3_mk_unary_minus(c, a[0]))));
    case FTRUNCI: case FROUNDI: {
      auto fl = [&](Z3_ast v) { return Z3_mk_int2real(c, Z3_mk_real2int(c, v)); };
      if (e->op == FTRUNCI) return Z3_mk_ite(c, Z3_mk_lt(c, a[0], zero), Z3_mk_unary_minus(c, fl(Z3_mk_unary_minus(c, a[0]))), fl(a[0]));
      Z3_ast half = Z3_mk_real(c, 1, 2), one = Z3_mk_int(c, 1, realS), lo = fl(a[0]), s[2] = {a[0], lo}, fr = Z3_mk_sub(c, 2, s), u[2] = {lo, one}, up = Z3_mk_add(c, 2, u);
      Z3_ast even = Z3_mk_eq(c, Z3_mk_mod(c, Z3_mk_real2int(c, a[0]), Z3_mk_int(c, 2, Z3_mk_int_sort(c))), Z3_mk_int(c, 0, Z3_mk_int_sort(c)));
      return Z3_mk_ite(c, Z3_mk_lt(c, fr, half), lo, Z3_mk_ite(c, Z3_mk_lt(c, half, fr), up, Z3_mk_ite(c, even, lo, up)));
    }
    case FREM_: {
      Z3_ast q = Z3_mk_div(c, a[0], a[1]), nq = Z3_mk_unary_minus(c, q);
      Z3_ast t = Z3_mk_ite(c, Z3_mk_lt(c, q, zero), Z3_mk_unary_minus(c, Z3_mk_int2real(c, Z3_mk_real2int(c, nq))), Z3_mk_int2real(c, Z3_mk_real2int(c, q)));
      Z3_ast m[2] = {t, a[1]}, r[2] = {a[0], Z3_mk_mul(c, 2, m)}; return Z3_mk_sub(c, 2, r);
    }
    case FPCVT: return a[0];
    case BITSOFF: case BYTEOFF: case FOFBITS: {
      // opaque: an unconstrained function of the operand
      static std::map<std::string, Z3_func_decl> ds;
      std::string n = "opq" + std::to_string(e->op) + "_" + std::to_string(e->c) + "_" + std::to_string(e->w) + "_" + std::to_string(e->k[0]->w);
      auto &d = ds[n];
      Z3_ast arg = e->op == FOFBITS ? bv(0) : a[0];
      if (!d) { Z3_sort s = Z3_get_sort(c, arg); d = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, n.c_str()), 1, &s, e->isF ? realS : bvS(e->w)); }
      return Z3_mk_app(c, d, 1, &arg);
    }
    default: g_unsupported = "real-mode operation " + std::to_string(e->op); return e->isF ? zero : (e->w == 1 ? Z3_mk_false(c) : Z3_mk_unsigned_int64(c, 0, bvS(e->w)));
    }
  }
  if (g_abs) switch (e->op) {
  case FADD: case FSUB: case FMUL: case FDIV: case FPCVT: {
    if (e->op == FPCVT && e->w > e->k[0]->w) break; // widening is exact and cheap
    static std::map<std::string, Z3_func_decl> ds; bool two = e->op != FPCVT; unsigned w0 = e->k[0]->w;
    std::string n = "abs" + std::to_string(e->op) + "_" + std::to_string(w0) + "_" + std::to_string(e->w); auto &d = ds[n];
    if (!d) { Z3_sort dom[2] = {fS(w0), fS(w0)}; d = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, n.c_str()), two ? 2 : 1, dom, fS(e->w)); }
    Z3_ast a[2] = {z(0), two ? z(1) : nullptr}; g_absApps.push_back(e); return Z3_mk_app(c, d, two ? 2 : 1, a);
  }
  default: break;
  }
  switch (e->op) {
  case FADD: return Z3_mk_fpa_add(c, rne, z(0), z(1)); case FSUB: return Z3_mk_fpa_sub(c, rne, z(0), z(1)); case FMUL: return Z3_mk_fpa_mul(c, rne, z(0), z(1)); case FDIV: return Z3_mk_fpa_div(c, rne, z(0), z(1));
  case FREM_: { g_unsupported = "fmod"; return z(0); }
  case FNEG: return Z3_mk_fpa_neg(c, z(0)); case FABS: return Z3_mk_fpa_abs(c, z(0)); case FSQRT: return Z3_mk_fpa_sqrt(c, rne, z(0));
  case FCEIL: return Z3_mk_fpa_round_to_integral(c, rtp, z(0)); case FFLOOR: return Z3_mk_fpa_round_to_integral(c, rtn, z(0)); case FTRUNCI: return Z3_mk_fpa_round_to_integral(c, rtz, z(0)); case FROUNDI: return Z3_mk_fpa_round_to_integral(c, rne, z(0));
  case FEQ: return Z3_mk_fpa_eq(c, z(0), z(1)); case FLT: return Z3_mk_fpa_lt(c, z(0), z(1)); case FLE: return Z3_mk_fpa_leq(c, z(0), z(1)); case FISNAN: return Z3_mk_fpa_is_nan(c, z(0));
  case FUF: { Z3_ast a[2] = {z(0), e->k[1] ? z(1) : nullptr}; return Z3_mk_app(c, ufDecl(e->c, e->w, e->k[1] != nullptr), e->k[1] ? 2 : 1, a); }
  case SITOFP: return Z3_mk_fpa_to_fp_signed(c, rne, bv(0), fS(e->w)); case UITOFP: return Z3_mk_fpa_to_fp_unsigned(c, rne, bv(0), fS(e->w));
  case FPTOSI: return Z3_mk_fpa_to_sbv(c, rtz, z(0), e->w); case FPTOUI: return Z3_mk_fpa_to_ubv(c, rtz, z(0), e->w);
  case FPCVT: return Z3_mk_fpa_to_fp_float(c, rne, z(0), fS(e->w));
  case BITSOFF: return Z3_mk_fpa_to_ieee_bv(c, z(0)); case FOFBITS: return Z3_mk_fpa_to_fp_bv(c, bv(0), fS(e->w));
  case BYTEOFF: return Z3_mk_extract(c, 8 * e->c + 7, 8 * e->c, Z3_mk_fpa_to_ieee_bv(c, z(0)));
  default: g_unsupported = "operation " + std::to_string(e->op); return Z3_mk_false(c);
  }
}
Z3_ast toZ3(E e) {
  if (e->z) return e->z;
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (x->z) { st.pop_back(); continue; }
    bool ready = true;
    for (E k : x->k) if (k && !k->z) { st.push_back(k); ready = false; }
    if (!ready) continue;
    x->z = tr(x);
    st.pop_back();
  }
  return e->z;
}
static size_t axiomDone = 0;
std::vector<Z3_ast> takeAxioms() {
  std::vector<Z3_ast> out;
  Z3_context c = g_ctx;
  for (auto a : g_randAx) out.push_back(a); g_randAx.clear();
  // abstract IEEE arithmetic: facts that hold for every correctly rounded operation (round to nearest even)
  for (; absDone < g_absApps.size(); absDone++) {
    E e = g_absApps[absDone]; Z3_sort s = fS(e->w), s0 = fS(e->k[0]->w); bool two = e->op != FPCVT;
    Z3_ast a = toZ3(e->k[0]), b = two ? toZ3(e->k[1]) : nullptr, r = toZ3(e);
    auto N = [&](double v, Z3_sort so) { return Z3_mk_fpa_numeral_double(c, v, so); };
    Z3_ast zero = Z3_mk_fpa_zero(c, s, false), one = N(1.0, s);
    auto le = [&](Z3_ast x, Z3_ast y) { return Z3_mk_fpa_leq(c, x, y); }; auto lt = [&](Z3_ast x, Z3_ast y) { return Z3_mk_fpa_lt(c, x, y); };
    auto nan = [&](Z3_ast x) { return Z3_mk_fpa_is_nan(c, x); }; auto inf = [&](Z3_ast x) { return Z3_mk_fpa_is_infinite(c, x); }; auto neg = [&](Z3_ast x) { return Z3_mk_fpa_neg(c, x); }; auto ab = [&](Z3_ast x) { return Z3_mk_fpa_abs(c, x); };
    auto No = [&](Z3_ast x) { return Z3_mk_not(c, x); };
    auto And = [&](std::vector<Z3_ast> v) { return Z3_mk_and(c, v.size(), v.data()); }; auto Or = [&](std::vector<Z3_ast> v) { return Z3_mk_or(c, v.size(), v.data()); };
    auto imp = [&](Z3_ast p, Z3_ast q) { out.push_back(Z3_mk_implies(c, p, q)); };
    auto feq = [&](Z3_ast x, Z3_ast y) { return Z3_mk_fpa_eq(c, x, y); };
    if (!two) {
      out.push_back(Z3_mk_iff(c, nan(a), nan(r)));
      for (double k : {-2.0, -1.0, 0.0, 0.5, 1.0, 2.0, 128.0, 4096.0, 3e38}) { imp(le(a, N(k, s0)), le(r, N((float)k, s))); imp(le(N(k, s0), a), le(N((float)k, s), r)); }
      imp(inf(a), inf(r)); imp(le(ab(a), N(3e38, s0)), No(inf(r))); continue;
    }
    if (e->op == FADD || e->op == FSUB) {
      Z3_ast nb = e->op == FADD ? b : neg(b); // r = a + nb
      out.push_back(Z3_mk_iff(c, nan(r), Or({nan(a), nan(b), And({inf(a), inf(b), feq(a, neg(nb))})})));
      Z3_ast ok = No(nan(r)), u = a, v = nb;
      for (int i = 0; i < 2; i++, std::swap(u, v)) {
        imp(And({ok, le(zero, u)}), le(v, r)); imp(And({ok, le(u, zero)}), le(r, v)); imp(And({ok, feq(u, zero)}), feq(r, v));
        imp(And({ok, inf(u)}), feq(r, u));
        for (double n = 1; n <= 6; n++) { imp(And({le(u, one), le(v, N(n, s))}), le(r, N(n + 1, s))); imp(And({le(neg(one), u), le(N(-n, s), v)}), le(N(-n - 1, s), r)); }
      }
      imp(And({ok, le(a, neg(nb))}), le(r, zero)); imp(And({ok, le(neg(nb), a)}), le(zero, r)); imp(And({ok, lt(a, neg(nb))}), lt(r, zero)); imp(And({ok, lt(neg(nb), a)}), lt(zero, r));
      double big = e->w == 32 ? 1e38 : 8e307; imp(And({le(ab(a), N(big, s)), le(ab(b), N(big, s))}), No(inf(r)));
    } else if (e->op == FMUL) {
      out.push_back(Z3_mk_iff(c, nan(r), Or({nan(a), nan(b), And({inf(a), feq(b, zero)}), And({inf(b), feq(a, zero)})})));
      Z3_ast ok = No(nan(r)), u = a, v = b;
      imp(And({ok, le(zero, a), le(zero, b)}), le(zero, r)); imp(And({ok, le(a, zero), le(b, zero)}), le(zero, r));
      for (int i = 0; i < 2; i++, std::swap(u, v)) {
        imp(And({ok, le(zero, u), le(v, zero)}), le(r, zero)); imp(And({ok, le(ab(u), one)}), le(ab(r), ab(v))); imp(And({ok, le(one, ab(u))}), le(ab(v), ab(r))); imp(And({ok, feq(u, one)}), feq(r, v)); imp(And({ok, feq(u, zero)}), feq(r, zero));
        imp(And({ok, inf(u)}), inf(r));
      }
      double sq = e->w == 32 ? 1e19 : 1e153; imp(And({le(ab(a), N(sq, s)), le(ab(b), N(sq, s))}), No(inf(r)));
    } else {
      out.push_back(Z3_mk_iff(c, nan(r), Or({nan(a), nan(b), And({inf(a), inf(b)}), And({feq(a, zero), feq(b, zero)})})));
      Z3_ast ok = No(nan(r));
      imp(And({ok, le(zero, a), lt(zero, b)}), le(zero, r)); imp(And({ok, le(a, zero), lt(b, zero)}), le(zero, r)); imp(And({ok, le(a, zero), lt(zero, b)}), le(r, zero)); imp(And({ok, le(zero, a), lt(b, zero)}), le(r, zero));
      imp(And({ok, le(ab(a), ab(b))}), le(ab(r), one)); imp(And({ok, le(ab(b), ab(a))}), le(one, ab(r))); imp(And({ok, feq(b, one)}), feq(r, a)); imp(And({ok, feq(a, b), No(feq(a, zero))}), feq(r, one));
      imp(And({ok, le(one, ab(b))}), le(ab(r), ab(a))); imp(And({ok, le(ab(b), one)}), le(ab(a), ab(r))); imp(And({ok, inf(b)}), feq(r, zero)); imp(And({ok, feq(b, zero)}), inf(r)); imp(And({ok, inf(a)}), inf(r)); imp(And({ok, feq(a, zero)}), feq(r, zero));
      imp(And({le(one, a), lt(zero, b), le(b, N(e->w == 32 ? 0x1p125 : 0x1p1000, s))}), lt(zero, r));
    }
  }
  for (; axiomDone < g_ufApps.size(); axiomDone++) {
    UFApp u = g_ufApps[axiomDone];
    Z3_ast a = toZ3(u.a), f = toZ3(u.app);
    auto imp = [&](Z3_ast p, Z3_ast q) { out.push_back(Z3_mk_implies(c, p, q)); };
    if (g_fp == FpMode::Real) {
      Z3_ast zero = Z3_mk_int(c, 0, realS), one = Z3_mk_int(c, 1, realS), mone = Z3_mk_int(c, -1, realS);
      auto mul = [&](Z3_ast x, Z3_ast y) { Z3_ast v[2] = {x, y}; return Z3_mk_mul(c, 2, v); };
      auto add = [&](Z3_ast x, Z3_ast y) { Z3_ast v[2] = {x, y}; return Z3_mk_add(c, 2, v); };
      switch (u.uf) {
      case UF_EXP: case UF_EXP2:
        out.push_back(Z3_mk_gt(c, f, zero));
        imp(Z3_mk_eq(c, a, zero), Z3_mk_eq(c, f, one));
        imp(Z3_mk_lt(c, a, zero), Z3_mk_lt(c, f, one));
        imp(Z3_mk_gt(c, a, zero), Z3_mk_gt(c, f, one));
        out.push_back(Z3_mk_ge(c, f, add(one, u.uf == UF_EXP ? a : zero)) );
        if (u.uf == UF_EXP2) out.pop_back();
        break;
      case UF_TANH:
        out.push_back(Z3_mk_lt(c, f, one)); out.push_back(Z3_mk_gt(c, f, mone));
        imp(Z3_mk_eq(c, a, zero), Z3_mk_eq(c, f, zero));
        imp(Z3_mk_lt(c, a, zero), Z3_mk_lt(c, f, zero));
        imp(Z3_mk_gt(c, a, zero), Z3_mk_gt(c, f, zero));
        break;
      case UF_SQRT:
        imp(Z3_mk_ge(c, a, zero), Z3_mk_ge(c, f, zero));
        imp(Z3_mk_ge(c, a, zero), Z3_mk_eq(c, mul(f, f), a));
        imp(Z3_mk_gt(c, a, zero), Z3_mk_gt(c, f, zero));
        break;
      case UF_LOG2: case UF_LOG: case UF_LOG10:
        imp(Z3_mk_eq(c, a, one), Z3_mk_eq(c, f, zero));
        imp(Z3_mk_gt(c, a, one), Z3_mk_gt(c, f, zero));
        { Z3_ast v[2] = {Z3_mk_gt(c, a, zero), Z3_mk_lt(c, a, one)}; imp(Z3_mk_and(c, 2, v), Z3_mk_lt(c, f, zero)); }
        break;
      }
      for (size_t j = 0; j < axiomDone; j++) {
        UFApp &v = g_ufApps[j];
        Z3_ast b = toZ3(v.a), g = toZ3(v.app);
        if (v.uf == u.uf && (u.uf == UF_EXP || u.uf == UF_TANH || u.uf == UF_EXP2)) {
          imp(Z3_mk_lt(c, a, b), Z3_mk_lt(c, f, g)); imp(Z3_mk_lt(c, b, a), Z3_mk_lt(c, g, f));
          Z3_ast negb = Z3_mk_unary_minus(c, b);
          if (u.uf == UF_TANH) imp(Z3_mk_eq(c, a, negb), Z3_mk_eq(c, f, Z3_mk_unary_minus(c, g)));
          else imp(Z3_mk_eq(c, a, negb), Z3_mk_eq(c, mul(f, g), one));
        }
        if (v.uf == u.uf && (u.uf == UF_LOG2 || u.uf == UF_LOG || u.uf == UF_LOG10)) {
          Z3_ast p1[2] = {Z3_mk_gt(c, a, zero), Z3_mk_lt(c, a, b)}; imp(Z3_mk_and(c, 2, p1), Z3_mk_lt(c, f, g));
          Z3_ast p2[2] = {Z3_mk_gt(c, b, zero), Z3_mk_lt(c, b, a)}; imp(Z3_mk_and(c, 2, p2), Z3_mk_lt(c, g, f));
        }
        if (v.uf == u.uf && u.uf == UF_EXP && axiomDone < 10)
          for (size_t k = 0; k < j; k++) {
            UFApp &w = g_ufApps[k]; if (w.uf != UF_EXP) continue;
            Z3_ast d = toZ3(w.a), h = toZ3(w.app); // exp(x + y) = exp(x) exp(y), whichever of the three is the sum
            imp(Z3_mk_eq(c, a, add(b, d)), Z3_mk_eq(c, f, mul(g, h))); imp(Z3_mk_eq(c, b, add(a, d)), Z3_mk_eq(c, g, mul(f, h))); imp(Z3_mk_eq(c, d, add(a, b)), Z3_mk_eq(c, h, mul(f, g)));
          }
        // log2(x) * ln 2 = log(x) is left out: the two are never mixed here.
        if ((u.uf == UF_TANH && v.uf == UF_EXP) || (u.uf == UF_EXP && v.uf == UF_TANH)) {
          Z3_ast ta = u.uf == UF_TANH ? a : b, tf = u.uf == UF_TANH ? f : g, ea = u.uf == UF_EXP ? a : b, ef = u.uf == UF_EXP ? f : g;
          Z3_ast two = Z3_mk_int(c, 2, realS);
          imp(Z3_mk_eq(c, ea, mul(two, ta)), Z3_mk_eq(c, mul(tf, add(ef, one)), add(ef, mone)));
          imp(Z3_mk_eq(c, ea, Z3_mk_unary_minus(c, mul(two, ta))), Z3_mk_eq(c, mul(tf, add(ef, one)), add(one, Z3_mk_unary_minus(c, ef))));
        }
      }
    } else {
      Z3_sort s = fS(u.app->w);
      Z3_ast zero = Z3_mk_fpa_zero(c, s, false), one = Z3_mk_fpa_numeral_double(c, 1.0, s), mone = Z3_mk_fpa_numeral_double(c, -1.0, s);
      Z3_ast nanA = Z3_mk_fpa_is_nan(c, a), nanF = Z3_mk_fpa_is_nan(c, f);
      switch (u.uf) {
      case UF_EXP:
        out.push_back(Z3_mk_iff(c, nanA, nanF));
        imp(Z3_mk_not(c, nanA), Z3_mk_fpa_geq(c, f, zero));
        imp(Z3_mk_fpa_eq(c, a, zero), Z3_mk_eq(c, f, one));
        imp(Z3_mk_fpa_leq(c, a, zero), Z3_mk_fpa_leq(c, f, one));
        imp(Z3_mk_fpa_geq(c, a, zero), Z3_mk_fpa_geq(c, f, one));
        out.push_back(Z3_mk_implies(c, Z3_mk_fpa_leq(c, a, Z3_mk_fpa_numeral_double(c, 709.0, s)), Z3_mk_not(c, Z3_mk_fpa_is_infinite(c, f))));
        break;
      case UF_TANH:
        out.push_back(Z3_mk_iff(c, nanA, nanF));
        imp(Z3_mk_not(c, nanA), Z3_mk_fpa_leq(c, f, one)); imp(Z3_mk_not(c, nanA), Z3_mk_fpa_geq(c, f, mone));
        break;
      case UF_LOG2: case UF_LOG: case UF_LOG10: {
        Z3_ast pos = Z3_mk_fpa_lt(c, zero, a), fin = Z3_mk_not(c, Z3_mk_fpa_is_infinite(c, a));
        Z3_ast nn[2] = {nanA, Z3_mk_fpa_lt(c, a, zero)}; out.push_back(Z3_mk_iff(c, nanF, Z3_mk_or(c, 2, nn)));
        imp(Z3_mk_fpa_leq(c, one, a), Z3_mk_fpa_leq(c, zero, f)); { Z3_ast v[2] = {Z3_mk_fpa_leq(c, zero, a), Z3_mk_fpa_leq(c, a, one)}; imp(Z3_mk_and(c, 2, v), Z3_mk_fpa_leq(c, f, zero)); }
        { Z3_ast v[2] = {pos, fin}; imp(Z3_mk_and(c, 2, v), Z3_mk_fpa_leq(c, Z3_mk_fpa_abs(c, f), Z3_mk_fpa_numeral_double(c, 1080.0, s))); }
        imp(Z3_mk_fpa_eq(c, a, zero), Z3_mk_fpa_is_infinite(c, f)); break; }
      default: break;
      }
      if (u.uf == UF_EXP || u.uf == UF_TANH || u.uf == UF_LOG2 || u.uf == UF_LOG)
        for (size_t j = 0; j < axiomDone; j++) {
          UFApp &v = g_ufApps[j];
          if (v.uf != u.uf || v.app->w != u.app->w) continue;
          Z3_ast b = toZ3(v.a), g = toZ3(v.app);
          bool lg = u.uf == UF_LOG2 || u.uf == UF_LOG; auto guard = [&](Z3_ast lo, Z3_ast cmp) { Z3_ast v2[2] = {cmp, Z3_mk_fpa_leq(c, zero, lo)}; return lg ? Z3_mk_and(c, 2, v2) : cmp; };
          imp(guard(a, Z3_mk_fpa_leq(c, a, b)), Z3_mk_fpa_leq(c, f, g)); imp(guard(b, Z3_mk_fpa_leq(c, b, a)), Z3_mk_fpa_leq(c, g, f));
        }
    }
  }
  return out;
}
std::string exprStr(E e, int depth) {
  if (e->isConst()) return e->isF ? std::to_string(fval(e)) : std::to_string(sval(e));
  if (e->op == VAR) return g_vars[e->c].name;
  if (depth == 0) return "..";
  std::string s = "(" + std::to_string(e->op);
  for (E k : e->k) if (k) s += " " + exprStr(k, depth - 1);
  return s + ")";
}
