// Symbolic executor for LLVM bitcode.  One process explores one path; at every
// decision that the path condition leaves open the process forks, so that all
// feasible paths are explored.  Feasibility and assertions are decided by Z3.
#include "expr.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <deque>
#include <memory>
#include "llvm/ADT/DenseMap.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;
typedef ::Expr *EX;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------ shared state
struct Shared {
  std::atomic<int> tokens;
  std::atomic<long> paths, forks, queries, satq, unsatq, unknownq, instrs, asserts, assertQueries, violations, samples, memchecks, schedPoints;
  std::atomic<long> solverUs;
  std::atomic<int> incomplete, errors, stop;
  std::atomic<int> nreach;
  struct { char name[64]; std::atomic<long> n; } reach[128];
  std::atomic<int> nviol;
  struct { char label[160]; std::atomic<int> n; } viol[256];
  char err[512];
  std::atomic<char> fnSeen[1 << 16];
};
static Shared *SH;
static std::string outDir = ".";
static double deadline = 1e18;
static int maxSamples = 3, maxViol = 2, tier = 0;
static long stepLimit = 30000000;
static unsigned rlimit = 40000000;
static bool dumpQueries = false;
static bool haltOnViol = true;
static bool verbose = false;

static void lockedAppend(const char *file, const std::string &s) {
  std::string p = outDir + "/" + file;
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd >= 0) { ssize_t r = write(fd, s.data(), s.size()); (void)r; close(fd); }
}
static std::vector<pid_t> kids;
static bool holdsToken = false;
static long localInstrs = 0;
[[noreturn]] static void finish(int code) {
  SH->instrs += localInstrs; localInstrs = 0;
  if (holdsToken) { SH->tokens++; holdsToken = false; }
  for (pid_t k : kids) { int st; if (waitpid(k, &st, 0) == k && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->errors++; if (!SH->err[0]) snprintf(SH->err, sizeof SH->err, "explorer process ended abnormally (status %d)", st); } }
  _exit(code);
}
[[noreturn]] static void internalError(const std::string &m) {
  SH->errors++;
  if (!SH->err[0]) snprintf(SH->err, sizeof SH->err, "%s", m.c_str());
  lockedAppend("errors.txt", m + "\n");
  finish(0);
}
// returns true in the child
static bool forkPath() {
  SH->forks++;
  SH->instrs += localInstrs; localInstrs = 0;
  fflush(stdout); fflush(stderr);
  bool conc = false;
  int t = SH->tokens.load();
  while (t > 0) { if (SH->tokens.compare_exchange_weak(t, t - 1)) { conc = true; break; } }
  pid_t p = fork();
  if (p < 0) { usleep(200000); p = fork(); if (p < 0) internalError("fork failed"); }
  if (p == 0) { kids.clear(); holdsToken = conc; return true; }
  if (conc) kids.push_back(p);
  else { int st; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->errors++; if (!SH->err[0]) snprintf(SH->err, sizeof SH->err, "explorer process ended abnormally (status %d)", st); } }
  return false;
}

// ------------------------------------------------------------ solver
static Z3_solver S;
static std::vector<EX> PC;
static Z3_model M = nullptr; // model of the current PC, or null
static std::unordered_map<EX, bool> known;
static void setModel(Z3_model m) { if (m) Z3_model_inc_ref(g_ctx, m); M = m; }
static void flushAxioms() {
  auto ax = takeAxioms();
  for (auto a : ax) {
    Z3_solver_assert(g_ctx, S, a);
    if (M) { Z3_ast r; if (!Z3_model_eval(g_ctx, M, a, true, &r) || Z3_get_bool_value(g_ctx, r) != Z3_L_TRUE) M = nullptr; }
  }
}
static bool modelSays(EX c, bool &v) {
  if (!M) return false;
  Z3_ast r;
  if (!Z3_model_eval(g_ctx, M, toZ3(c), true, &r)) return false;
  Z3_lbool b = Z3_get_bool_value(g_ctx, r);
  if (b == Z3_L_UNDEF) return false;
  v = b == Z3_L_TRUE;
  return true;
}
static void unsupportedCheck() { if (!g_unsupported.empty()) internalError("unsupported: " + g_unsupported); }
static Z3_lbool query(EX extra, Z3_model *mo, Z3_ast extraZ = nullptr) {
  Z3_ast a = extra ? toZ3(extra) : extraZ;
  unsupportedCheck();
  flushAxioms();
  double t0 = now();
  if (a) { Z3_solver_push(g_ctx, S); Z3_solver_assert(g_ctx, S, a); }
  Z3_lbool r = Z3_solver_check(g_ctx, S);
  if (r == Z3_L_TRUE && mo) { *mo = Z3_solver_get_model(g_ctx, S); if (*mo) Z3_model_inc_ref(g_ctx, *mo); }
  if (a) Z3_solver_pop(g_ctx, S, 1);
  SH->solverUs += (long)((now() - t0) * 1e6);
  SH->queries++;
  (r == Z3_L_TRUE ? SH->satq : r == Z3_L_FALSE ? SH->unsatq : SH->unknownq)++;
  return r;
}
// Fresh solver over the whole path condition: used when the incremental core gives up.
static Z3_lbool freshQuery(Z3_ast extra, Z3_model *mo) {
  flushAxioms();
  double t0 = now();
  Z3_solver F = Z3_mk_solver(g_ctx); Z3_solver_inc_ref(g_ctx, F);
  Z3_params p = Z3_mk_params(g_ctx); Z3_params_inc_ref(g_ctx, p);
  Z3_params_set_uint(g_ctx, p, Z3_mk_string_symbol(g_ctx, "rlimit"), rlimit * 4u);
  Z3_params_set_uint(g_ctx, p, Z3_mk_string_symbol(g_ctx, "timeout"), 90000);
  Z3_solver_set_params(g_ctx, F, p);
  Z3_ast_vector v = Z3_solver_get_assertions(g_ctx, S);
  for (unsigned i = 0; i < Z3_ast_vector_size(g_ctx, v); i++) Z3_solver_assert(g_ctx, F, Z3_ast_vector_get(g_ctx, v, i));
  if (extra) Z3_solver_assert(g_ctx, F, extra);
  Z3_lbool r = Z3_solver_check(g_ctx, F);
  if (r == Z3_L_TRUE && mo) { *mo = Z3_solver_get_model(g_ctx, F); if (*mo) Z3_model_inc_ref(g_ctx, *mo); }
  if (r == Z3_L_UNDEF) {
    // portfolio: other solvers on the dumped query (verdict unsat only)
    char fn[256]; snprintf(fn, sizeof fn, "%s/q_%d_%ld.smt2", outDir.c_str(), getpid(), SH->queries.load());
    FILE *f = fopen(fn, "w");
    if (f) { fprintf(f, "%s\n(check-sat)\n", Z3_solver_to_string(g_ctx, F)); fclose(f);
      const char *cmds[] = {"timeout 60 z3-new -T:60 '%s' 2>/dev/null", "timeout 60 cvc5 --tlimit=60000 --lang smt2 '%s' 2>/dev/null"};
      for (const char *cm : cmds) {
        char cmd[512]; snprintf(cmd, sizeof cmd, cm, fn);
        FILE *pp = popen(cmd, "r"); char line[128] = ""; if (pp) { if (!fgets(line, sizeof line, pp)) line[0] = 0; pclose(pp); }
        if (!strncmp(line, "unsat", 5)) { r = Z3_L_FALSE; break; }
      }
      unlink(fn);
    }
  }
  Z3_solver_dec_ref(g_ctx, F);
  SH->solverUs += (long)((now() - t0) * 1e6);
  SH->queries++;
  (r == Z3_L_TRUE ? SH->satq : r == Z3_L_FALSE ? SH->unsatq : SH->unknownq)++;
  return r;
}
static void addPC(EX c) {
  if (c->isConst()) return;
  PC.push_back(c);
  known[c] = true; known[mkNot(c)] = false;
  Z3_ast a = toZ3(c);
  unsupportedCheck();
  Z3_solver_assert(g_ctx, S, a);
  if (M) { bool v; if (!modelSays(c, v) || !v) M = nullptr; }
}
static void ensureModel() {
  if (M) return;
  Z3_model m = nullptr;
  Z3_lbool r = query(nullptr, &m);
  if (r == Z3_L_UNDEF) r = freshQuery(nullptr, &m);
  if (r == Z3_L_TRUE) M = m;
}

// ------------------------------------------------------------ memory
static const int NT = 16; // clock slots: threads of one path that are not yet joined, at most
typedef std::array<uint32_t, NT> VC;
struct Shadow { std::vector<int8_t> wt; std::vector<uint32_t> wc; std::vector<VC> rc; };
struct Obj {
  uint64_t base, size; bool alive = true; uint8_t kind = 0; // 0 global 1 heap 2 stack 3 function 4 exception
  Function *fn = nullptr; bool ro = false; std::string tag;
  std::vector<uint8_t> d, st; std::vector<EX> se; std::vector<uint8_t> si;
  std::unique_ptr<Shadow> sh;
};
static const unsigned UNIT = 20;
static std::vector<Obj *> units(16, nullptr); // unit index -> object
static Obj *newObj(uint64_t size, int kind, const std::string &tag) {
  if (size > (1ull << 28)) return nullptr;
  Obj *o = new Obj(); o->size = size; o->kind = kind; o->tag = tag;
  o->base = (uint64_t)units.size() << UNIT;
  // data objects start a little into their unit, so that small negative offsets are out of bounds of this object
  o->base += 4096;
  unsigned n = (unsigned)((size + 8192 + (1ull << UNIT) - 1) >> UNIT);
  for (unsigned i = 0; i < n; i++) units.push_back(o);
  o->d.assign(size, 0); o->st.assign(size, 0);
  return o;
}
static Obj *objAt(uint64_t a) { uint64_t u = a >> UNIT; return u < units.size() ? units[u] : nullptr; }

// ------------------------------------------------------------ program state
static std::unique_ptr<Module> Mod;
static const DataLayout *DL;
struct FInfo { DenseMap<const Value *, unsigned> slot; unsigned n = 0; };
static DenseMap<const Function *, FInfo *> finfo;
static FInfo *infoFor(Function *f) {
  auto &p = finfo[f];
  if (!p) { p = new FInfo(); for (auto &a : f->args()) p->slot[&a] = p->n++; for (auto &b : *f) for (auto &i : b) if (!i.getType()->isVoidTy()) p->slot[&i] = p->n++; }
  return p;
}
struct Frame {
  Function *f; FInfo *fi; BasicBlock *bb; BasicBlock *prev = nullptr; BasicBlock::iterator it; std::vector<EX> r; std::vector<Obj *> allocas; CallBase *site = nullptr;
  std::vector<EX> varargs;
  Frame(Function *fn) : f(fn), fi(infoFor(fn)), bb(fn->empty() ? nullptr : &fn->getEntryBlock()), r(fi->n, nullptr) { if (bb) it = bb->begin(); }
};
struct Exc { uint64_t obj; uint64_t ti; uint64_t dtor; int handlers = 0; };
struct Thread {
  std::vector<Frame> st; int id, slot = 0; bool done = false; bool started = false; uint64_t waitMutex = 0; int waitJoin = -1;
  std::vector<Exc> caught; Exc cur{}; VC vc{}; uint64_t state = 0; bool atSched = false;
  Exc lastAlloc{}; uint64_t waitCV = 0; bool inWait = false; uint64_t waitAddr = 0; uint32_t waitVal = 0;
};
static std::deque<Thread> threads;
static int cur = 0;
static std::vector<int> schedTrace;
struct Mutex { int owner = -1; VC vc{}; int count = 0; };
static std::map<uint64_t, Mutex> mutexes;
static std::map<uint64_t, VC> atomicVC;
static int liveThreads() { int n = 0; for (auto &t : threads) if (!t.done) n++; return n; }
static bool mt = false; // more than one live thread
static DenseMap<const Constant *, EX> constCache;
static DenseMap<const GlobalValue *, Obj *> gobj;
static std::vector<std::pair<std::string, EX>> userVars; // in creation order
static std::map<std::string, long> reachLocal;
static bool inHarness = false;
static long steps = 0;

static std::unordered_set<const Function *> fnSeen;
static void noteFunction(Function *f) {
  if (!fnSeen.insert(f).second) return;
  static DenseMap<const Function *, unsigned> idx; if (idx.empty()) { unsigned n = 0; for (auto &g : *f->getParent()) idx[&g] = n++; }
  if (SH->fnSeen[idx[f] & 0xffff].exchange(1)) return;
  std::set<std::string> names;
  auto add = [&](const DISubprogram *sp) {
    if (!sp) return;
    std::string file = sp->getFilename().str(); if (file.find("/repo/") == std::string::npos) return;
    std::string n = sp->getLinkageName().str(); n = n.empty() ? sp->getName().str() : demangle(n); if (n.size() > 200) n = n.substr(0, 197) + "...";
    auto p = file.find("/repo/"); names.insert(file.substr(p + 6) + ": " + n);
  };
  add(f->getSubprogram());
  for (auto &b : *f) for (auto &i : b) for (const DILocation *l = i.getDebugLoc().get(); l; l = l->getInlinedAt()) add(l->getScope()->getSubprogram());
  std::string o; for (auto &n : names) o += n + "\n";
  if (!o.empty()) lockedAppend("functions.txt", o);
}
static std::string fnName(Function *f) { std::string d = demangle(f->getName().str()); auto p = d.find('('); return d.size() > 140 ? d.substr(0, 140) : d; }
static std::string where() {
  std::string s;
  auto &t = threads[cur];
  for (int i = (int)t.st.size() - 1, n = 0; i >= 0 && n < 6; i--, n++) {
    Frame &f = t.st[i];
    s += (n ? " <- " : "") + fnName(f.f);
    auto it = f.it; if (it != f.bb->begin()) --it;
    if (auto &dl = it->getDebugLoc()) s += ":" + std::to_string(dl.getLine());
  }
  return s;
}
static std::string jsonEsc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }

static std::string modelValue(Z3_model m, EX v) {
  Z3_ast r = nullptr;
  if (!Z3_model_eval(g_ctx, m, toZ3(v), true, &r)) return "?";
  if (!v->isF) {
    if (v->op == VAR) if (Z3_ast rr = randRealOf(v)) { if (Z3_model_eval(g_ctx, m, rr, true, &r)) { if (Z3_is_algebraic_number(g_ctx, r)) r = Z3_get_algebraic_number_lower(g_ctx, r, 12); return std::to_string((long)llround(Z3_get_numeral_double(g_ctx, r))); } }
    if (v->w == 1) return Z3_get_bool_value(g_ctx, r) == Z3_L_TRUE ? "1" : "0";
    uint64_t u = 0; Z3_get_numeral_uint64(g_ctx, r, &u);
    return std::to_string(sval(mkConst(u, v->w)));
  }
  if (g_fp == FpMode::Real) {
    if (Z3_is_algebraic_number(g_ctx, r)) r = Z3_get_algebraic_number_lower(g_ctx, r, 30);
    std::string ns = Z3_get_numeral_string(g_ctx, r);
    long double val; auto sl = ns.find('/');
    if (sl == std::string::npos) val = strtold(ns.c_str(), nullptr);
    else val = strtold(ns.substr(0, sl).c_str(), nullptr) / strtold(ns.substr(sl + 1).c_str(), nullptr);
    char b[64]; snprintf(b, sizeof b, "%a", (double)val); return b;
  }
  // IEEE: via bits
  Z3_ast bits = nullptr;
  if (Z3_fpa_is_numeral_nan(g_ctx, r)) return "nan";
  if (Z3_model_eval(g_ctx, m, Z3_mk_fpa_to_ieee_bv(g_ctx, r), true, &bits)) {
    uint64_t u = 0; if (Z3_get_numeral_uint64(g_ctx, bits, &u)) {
      double d; if (v->w == 32) { uint32_t x = u; float f; memcpy(&f, &x, 4); d = f; } else memcpy(&d, &u, 8);
      char b[64]; snprintf(b, sizeof b, "%a", d); return b;
    }
  }
  return "?";
}
static std::string modelJson(Z3_model m) {
  std::string s = "[";
  for (size_t i = 0; i < userVars.size(); i++) s += (i ? "," : "") + std::string("[\"") + jsonEsc(userVars[i].first) + "\",\"" + modelValue(m, userVars[i].second) + "\"]";
  s += "]";
  return s;
}
static std::string schedJson() { std::string s = "["; for (size_t i = 0; i < schedTrace.size(); i++) s += (i ? "," : "") + std::to_string(schedTrace[i]); return s + "]"; }
static std::string reachJson() { std::string s = "["; bool f = true; for (auto &r : reachLocal) { s += (f ? "\"" : ",\"") + jsonEsc(r.first) + "\""; f = false; } return s + "]"; }
static void report(const std::string &kind, const std::string &label, Z3_model m) {
  SH->violations++;
  int n = SH->nviol.load(), i;
  for (i = 0; i < n && i < 256; i++) if (!strncmp(SH->viol[i].label, label.c_str(), 159)) break;
  if (i == n && n < 256) { int k = SH->nviol++; if (k < 256) { strncpy(SH->viol[k].label, label.c_str(), 159); i = k; } }
  int c = i < 256 ? SH->viol[i].n++ : 0;
  if (c < maxViol) {
    std::string s = "{\"kind\":\"" + jsonEsc(kind) + "\",\"label\":\"" + jsonEsc(label) + "\",\"where\":\"" + jsonEsc(where()) + "\",\"model\":" + (m ? modelJson(m) : "[]") + ",\"sched\":" + schedJson() + ",\"reach\":" + reachJson() + "}\n";
    lockedAppend("violations.jsonl", s);
  }
  if (haltOnViol && SH->violations > 24) SH->stop = 1;
}
// the current path itself is a violation (path condition already implies it)
[[noreturn]] static void pathViolation(const std::string &kind, const std::string &label) {
  ensureModel();
  if (!M) {
    // is the path feasible at all?
    Z3_model m = nullptr; Z3_lbool r = freshQuery(nullptr, &m);
    if (r == Z3_L_FALSE) { SH->paths++; finish(0); }
    if (r == Z3_L_UNDEF) { SH->incomplete |= 4; finish(0); }
    M = m;
  }
  report(kind, label, M);
  SH->paths++;
  finish(0);
}
static bool g_expectAbort = false; // harness accepts an abort here (assert() in the code under test)
static void pathEnd() {
  SH->paths++;
  for (auto &r : reachLocal) {
    int n = SH->nreach.load(), i;
    for (i = 0; i < n; i++) if (r.first == SH->reach[i].name) break;
    if (i == n) { i = SH->nreach++; if (i < 128) strncpy(SH->reach[i].name, r.first.c_str(), 63); }
    if (i < 128) SH->reach[i].n++;
  }
  long s = SH->samples.load();
  // sample path models for validation against the native build: the first few, then sparsely
  long p = SH->paths.load();
  if (s < maxSamples && (s < maxSamples / 2 || p % 7 == 0) && M == nullptr) ensureModel();
  if (s < maxSamples && (s < maxSamples / 2 || p % 7 == 0) && M) {
    SH->samples++;
    lockedAppend("samples.jsonl", "{\"model\":" + modelJson(M) + ",\"sched\":" + schedJson() + ",\"reach\":" + reachJson() + "}\n");
  }
  finish(0);
}

static bool decide(EX c) {
  if (c->isConst()) return c->c;
  auto k = known.find(c);
  if (k != known.end()) return k->second;
  flushAxioms();
  toZ3(c); unsupportedCheck();
  Z3_model mt_ = nullptr, mf_ = nullptr; Z3_lbool t, f; bool v;
  ensureModel();
  if (modelSays(c, v)) {
    if (v) { t = Z3_L_TRUE; mt_ = M; f = query(mkNot(c), &mf_); }
    else { f = Z3_L_TRUE; mf_ = M; t = query(c, &mt_); }
  } else { t = query(c, &mt_); f = query(mkNot(c), &mf_); }
  if (t == Z3_L_UNDEF) t = freshQuery(toZ3(c), &mt_);
  if (f == Z3_L_UNDEF) f = freshQuery(toZ3(mkNot(c)), &mf_);
  if (t == Z3_L_FALSE && f == Z3_L_FALSE) { finish(0); } // infeasible path (e.g. after an inconclusive step)
  if (t == Z3_L_FALSE) { known[c] = false; known[mkNot(c)] = true; return false; }
  if (f == Z3_L_FALSE) { known[c] = true; known[mkNot(c)] = false; return true; }
  if (SH->stop) finish(0);
  static const char *dbg = getenv("SYMEX_FORKS"); if (dbg) lockedAppend("forks.txt", exprStr(c, 3) + " @ " + where() + "\n");
  if (forkPath()) { M = mf_; addPC(mkNot(c)); return false; }
  M = mt_; addPC(c); return true;
}
static uint64_t concretize(EX e) {
  while (!e->isConst()) {
    ensureModel();
    if (!M) internalError("cannot concretise: no model");
    Z3_ast r; Z3_model_eval(g_ctx, M, toZ3(e), true, &r);
    uint64_t v = 0;
    if (e->w == 1) v = Z3_get_bool_value(g_ctx, r) == Z3_L_TRUE; else Z3_get_numeral_uint64(g_ctx, r, &v);
    EX eq = mkBin(EQ, e, mkConst(v, e->w));
    auto kk = known.find(eq); if (kk != known.end() && kk->second) return v;
    Z3_model m2 = nullptr; Z3_lbool o = query(mkNot(eq), &m2);
    if (o == Z3_L_UNDEF) o = freshQuery(toZ3(mkNot(eq)), &m2);
    if (o == Z3_L_FALSE) { known[eq] = true; return v; }
    if (SH->stop) finish(0);
    if (forkPath()) { addPC(eq); return v; }
    M = m2; addPC(mkNot(eq));
  }
  return e->c;
}

// ------------------------------------------------------------ races
static VC &vc() { return threads[cur].vc; }
static void joinVC(VC &a, const VC &b) { for (int i = 0; i < NT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void raceCheck(Obj *o, uint64_t off, uint64_t n, bool wr) {
  if (!mt) return;
  if (!o->sh) { o->sh.reset(new Shadow()); o->sh->wt.assign(o->size, -1); o->sh->wc.assign(o->size, 0); o->sh->rc.assign(o->size, {}); }
  Shadow &s = *o->sh; int t = threads[cur].slot; VC &v = vc();
  for (uint64_t i = off; i < off + n; i++) {
    bool bad = s.wt[i] >= 0 && s.wt[i] != t && s.wc[i] > v[s.wt[i]];
    if (wr) for (int j = 0; j < NT; j++) if (j != t && s.rc[i][j] > v[j]) bad = true;
    if (bad) pathViolation("race", "data race: unsynchronised accesses to shared state by two threads");
    if (wr) { s.wt[i] = t; s.wc[i] = v[t]; } else s.rc[i][t] = v[t];
  }
}

// ------------------------------------------------------------ loads and stores
static unsigned szOf(Type *t) { return DL->getTypeStoreSize(t); }
static Obj *checkAccess(uint64_t a, uint64_t n, bool wr, std::string &err) {
  SH->memchecks++;
  Obj *o = objAt(a);
  if (a < (16ull << UNIT)) { err = "access through a null or wild pointer"; return nullptr; }
  if (!o || a < o->base || a + n > o->base + o->size) { err = wr ? "out-of-bounds write" : "out-of-bounds read"; return nullptr; }
  if (!o->alive) { err = "use after free"; return nullptr; }
  if (o->kind == 3) { err = "data access to code"; return nullptr; }
  return o;
}
static EX undefOf(bool isF, unsigned w) {
  EX v = mkVar("undef", isF, w, false);
  if (isF && g_fp == FpMode::Real) { addPC(mkFCmp(FLE, v, mkF(1e6))); addPC(mkFCmp(FLE, mkF(-1e6), v)); }
  return v;
}
static EX byteAt(Obj *o, uint64_t off) {
  if (o->st[off] == 1) return mkConst(o->d[off], 8);
  if (o->st[off] == 2) { EX e = o->se[off]; unsigned i = o->si[off]; if (e->isF) return mkByteOfF(e, i); if (e->w == 1) return mkZext(e, 8); return mkExtract(e, 8 * i, 8); }
  EX v = undefOf(false, 8);
  if (o->se.empty()) { o->se.assign(o->size, nullptr); o->si.assign(o->size, 0); }
  o->st[off] = 2; o->se[off] = v; o->si[off] = 0;
  return v;
}
static void rawStore(Obj *o, uint64_t off, EX v) {
  unsigned n = v->isF ? v->w / 8 : (v->w + 7) / 8;
  if (v->isConst()) {
    uint64_t bits = v->isF ? mkCvt(BITSOFF, v, false, v->w)->c : v->c;
    for (unsigned i = 0; i < n; i++) { o->d[off + i] = bits >> (8 * i); o->st[off + i] = 1; }
    return;
  }
  if (!v->isF && v->w % 8) v = mkZext(v, n * 8);
  if (v->isConst()) return rawStore(o, off, v);
  if (!v->isF && v->op == BITSOFF) v = v->k[0];
  if (o->se.empty()) { o->se.assign(o->size, nullptr); o->si.assign(o->size, 0); }
  if (n == 1 && v->op == BYTEOFF) { o->st[off] = 2; o->se[off] = v->k[0]; o->si[off] = v->c; return; } // one byte of a larger value: copies made byte by byte come back whole
  if (n == 1 && v->op == EXTRACT && v->c % 8 == 0 && v->k[0]->w % 8 == 0) { o->st[off] = 2; o->se[off] = v->k[0]; o->si[off] = v->c / 8; return; }
  for (unsigned i = 0; i < n; i++) { o->st[off + i] = 2; o->se[off + i] = v; o->si[off + i] = i; }
}
// load n bytes as one expression (BV or F, as stored)
static EX rawLoad(Obj *o, uint64_t off, unsigned n, bool wantF) {
  bool allC = true, allU = true;
  for (unsigned i = 0; i < n; i++) { uint8_t s = o->st[off + i]; allC &= s == 1; allU &= s == 0; }
  EX r = nullptr;
  if (allC) { uint64_t b = 0; for (unsigned i = 0; i < n; i++) b |= (uint64_t)o->d[off + i] << (8 * i); r = mkConst(b, n * 8); }
  else if (allU) {
    r = undefOf(wantF, n * 8);
    rawStore(o, off, r);
  } else {
    EX e0 = o->st[off] == 2 ? o->se[off] : nullptr;
    bool same = e0 && o->si[off] == 0 && e0->w == n * 8;
    for (unsigned i = 0; same && i < n; i++) same = o->st[off + i] == 2 && o->se[off + i] == e0 && o->si[off + i] == i;
    if (same) r = e0;
    else {
      r = byteAt(o, off);
      for (unsigned i = 1; i < n; i++) r = mkConcat(byteAt(o, off + i), r);
    }
  }
  if (wantF && !r->isF) r = mkCvt(FOFBITS, r, true, n * 8);
  if (!wantF && r->isF) r = mkCvt(BITSOFF, r, false, n * 8);
  return r;
}
static EX loadScalar(Obj *o, uint64_t off, Type *t) {
  if (t->isX86_FP80Ty()) return rawLoad(o, off, 8, true); // long double: kept as double
  if (t->isFloatTy() || t->isDoubleTy()) return rawLoad(o, off, szOf(t), true);
  if (t->isPointerTy()) return rawLoad(o, off, 8, false);
  if (t->isIntegerTy()) {
    unsigned w = t->getIntegerBitWidth(), n = (w + 7) / 8;
    if (n > 8) internalError("integer load wider than 64 bits");
    EX r = rawLoad(o, off, n, false);
    return w == n * 8 ? r : mkExtract(r, 0, w);
  }
  std::string s; raw_string_ostream os(s); t->print(os);
  internalError("load of unsupported type " + os.str());
}
static EX loadTy(Obj *o, uint64_t off, Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(st); std::vector<EX> v; for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadTy(o, off + l->getElementOffset(i), st->getElementType(i))); return mkAgg(v); }
  if (auto *at = dyn_cast<ArrayType>(t)) { std::vector<EX> v; uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) v.push_back(loadTy(o, off + i * es, at->getElementType())); return mkAgg(v); }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { std::vector<EX> v; uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(loadTy(o, off + i * es, vt->getElementType())); return mkAgg(v); }
  return loadScalar(o, off, t);
}
static void storeTy(Obj *o, uint64_t off, EX v, Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(o, off + l->getElementOffset(i), (*v->agg)[i], st->getElementType(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeTy(o, off + i * es, (*v->agg)[i], at->getElementType()); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) storeTy(o, off + i * es, (*v->agg)[i], vt->getElementType()); return; }
  rawStore(o, off, v);
}
static std::string memLabel(const std::string &err) { return "memory: " + err; }
// resolve an address expression: the set of feasible concrete values
static std::vector<uint64_t> resolve(EX a) {
  std::set<uint64_t> s;
  if (leafValues(a, s, 512)) return std::vector<uint64_t>(s.begin(), s.end());
  return {concretize(a)};
}
static EX memLoad(EX a, Type *t) {
  if (a->op == AGG) internalError("vector load address");
  unsigned n = szOf(t);
  std::string err;
  if (a->isConst()) {
    Obj *o = checkAccess(a->c, n, false, err);
    if (!o) pathViolation("memory", memLabel(err));
    raceCheck(o, a->c - o->base, n, false);
    return loadTy(o, a->c - o->base, t);
  }
  auto vals = resolve(a);
  EX r = nullptr;
  for (uint64_t v : vals) {
    EX eq = mkBin(EQ, a, mkConst(v, 64));
    Obj *o = checkAccess(v, n, false, err);
    if (!o) {
      Z3_model m = nullptr; Z3_lbool q = query(eq, &m); if (q == Z3_L_UNDEF) q = freshQuery(toZ3(eq), &m);
      if (q == Z3_L_TRUE) report("memory", memLabel(err), m); else if (q == Z3_L_UNDEF) SH->incomplete |= 4;
      continue;
    }
    raceCheck(o, v - o->base, n, false);
    EX x = loadTy(o, v - o->base, t);
    r = r ? mkIte(eq, x, r) : x;
  }
  if (!r) { SH->paths++; finish(0); }
  return r;
}
static void memStore(EX a, EX v, Type *t) {
  unsigned n = szOf(t);
  std::string err;
  if (a->isConst()) {
    Obj *o = checkAccess(a->c, n, true, err);
    if (!o) pathViolation("memory", memLabel(err));
    if (o->ro) pathViolation("memory", memLabel("write to constant data"));
    raceCheck(o, a->c - o->base, n, true);
    storeTy(o, a->c - o->base, v, t);
    return;
  }
  auto vals = resolve(a);
  if (vals.size() == 1) return memStore(mkConst(vals[0], 64), v, t);
  for (uint64_t x : vals) {
    EX eq = mkBin(EQ, a, mkConst(x, 64));
    Obj *o = checkAccess(x, n, true, err);
    if (!o) {
      Z3_model m = nullptr; Z3_lbool q = query(eq, &m); if (q == Z3_L_UNDEF) q = freshQuery(toZ3(eq), &m);
      if (q == Z3_L_TRUE) report("memory", memLabel(err), m); else if (q == Z3_L_UNDEF) SH->incomplete |= 4;
      continue;
    }
    raceCheck(o, x - o->base, n, true);
    EX old = loadTy(o, x - o->base, t);
    storeTy(o, x - o->base, mkIte(eq, v, old), t);
  }
}
static void memCopy(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  std::string err;
  Obj *so = checkAccess(s, n, false, err); if (!so) pathViolation("memory", memLabel(err));
  Obj *dO = checkAccess(d, n, true, err); if (!dO) pathViolation("memory", memLabel(err));
  raceCheck(so, s - so->base, n, false); raceCheck(dO, d - dO->base, n, true);
  uint64_t a = s - so->base, b = d - dO->base;
  std::vector<uint8_t> td(so->d.begin() + a, so->d.begin() + a + n), ts(so->st.begin() + a, so->st.begin() + a + n), ti; std::vector<EX> te;
  bool sym = false; for (auto x : ts) sym |= x == 2;
  if (sym) { te.assign(so->se.begin() + a, so->se.begin() + a + n); ti.assign(so->si.begin() + a, so->si.begin() + a + n); }
  std::copy(td.begin(), td.end(), dO->d.begin() + b); std::copy(ts.begin(), ts.end(), dO->st.begin() + b);
  if (sym) { if (dO->se.empty()) { dO->se.assign(dO->size, nullptr); dO->si.assign(dO->size, 0); } std::copy(te.begin(), te.end(), dO->se.begin() + b); std::copy(ti.begin(), ti.end(), dO->si.begin() + b); }
}
static uint64_t allocHeap(uint64_t n, const char *tag) { Obj *o = newObj(n, 1, tag); if (!o) return 0; return o->base; }
static void freeHeap(uint64_t a) {
  if (!a) return;
  Obj *o = objAt(a);
  if (!o || o->base != a || o->kind != 1) pathViolation("memory", memLabel("invalid free"));
  if (!o->alive) pathViolation("memory", memLabel("double free"));
  raceCheck(o, 0, o->size, true);
  o->alive = false; o->d.clear(); o->st.clear(); o->se.clear(); o->si.clear(); o->d.shrink_to_fit(); o->st.shrink_to_fit(); o->se.shrink_to_fit(); o->si.shrink_to_fit(); o->sh.reset();
}
static std::string cstr(uint64_t a) {
  std::string s, err;
  for (;; a++) { Obj *o = checkAccess(a, 1, false, err); if (!o) return s; EX b = byteAt(o, a - o->base); if (!b->isConst()) { s += '?'; continue; } if (!b->c) return s; s += (char)b->c; if (s.size() > 4000) return s; }
}

// ------------------------------------------------------------ constants
static EX constant(const Constant *c);
static uint64_t addrOf(const GlobalValue *g) {
  auto it = gobj.find(g);
  if (it != gobj.end()) return it->second->base;
  Obj *o;
  if (auto *f = dyn_cast<Function>(g)) { o = newObj(1, 3, f->getName().str()); o->fn = const_cast<Function *>(f); }
  else if (auto *ga = dyn_cast<GlobalAlias>(g)) { return constant(ga->getAliasee())->c; }
  else {
    auto *v = cast<GlobalVariable>(g);
    bool decl = v->isDeclaration();
    uint64_t n = decl ? 256 : (uint64_t)DL->getTypeAllocSize(v->getValueType());
    o = newObj(n, 0, g->getName().str());
    if (decl) std::fill(o->st.begin(), o->st.end(), 1);
  }
  gobj[g] = o;
  return o->base;
}
static void initMem(Obj *o, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<UndefValue>(c)) return;
  if (c->isNullValue()) { uint64_t n = DL->getTypeAllocSize(t); for (uint64_t i = 0; i < n; i++) { o->d[off + i] = 0; o->st[off + i] = 1; } return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *l = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initMem(o, off + l->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(o, off + i * es, ca->getOperand(i)); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) initMem(o, off + i * es, cd->getElementAsConstant(i)); return; }
  storeTy(o, off, constant(c), t);
}
static EX evalCast(unsigned opc, EX a, Type *from, Type *to);
static EX constant(const Constant *c) {
  auto it = constCache.find(c);
  if (it != constCache.end()) return it->second;
  EX r = nullptr; Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() > 64) internalError("constant wider than 64 bits"); } r = mkConst(ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth()), 0), std::min(64u, ci->getBitWidth())); }
  else if (auto *cf = dyn_cast<ConstantFP>(c)) { if (t->isDoubleTy()) r = mkF(cf->getValueAPF().convertToDouble(), 64); else if (t->isFloatTy()) r = mkF(cf->getValueAPF().convertToFloat(), 32); else if (t->isX86_FP80Ty()) { APFloat v = cf->getValueAPF(); bool li; v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); r = mkF(v.convertToDouble(), 64); } else internalError("fp type"); }
  else if (isa<ConstantPointerNull>(c)) r = mkConst(0, 64);
  else if (auto *g = dyn_cast<GlobalValue>(c)) r = mkConst(addrOf(g), 64);
  else if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    if (auto *st = dyn_cast<StructType>(t)) { std::vector<EX> v; for (auto *e : st->elements()) v.push_back(constant(isa<UndefValue>(c) ? (Constant *)UndefValue::get(e) : Constant::getNullValue(e))); r = mkAgg(v); }
    else if (auto *at = dyn_cast<ArrayType>(t)) { std::vector<EX> v(at->getNumElements(), constant(isa<UndefValue>(c) ? (Constant *)UndefValue::get(at->getElementType()) : Constant::getNullValue(at->getElementType()))); r = mkAgg(v); }
    else if (auto *vt = dyn_cast<FixedVectorType>(t)) { std::vector<EX> v(vt->getNumElements(), constant(isa<UndefValue>(c) ? (Constant *)UndefValue::get(vt->getElementType()) : Constant::getNullValue(vt->getElementType()))); r = mkAgg(v); }
    else if (t->isFloatingPointTy()) r = mkF(0, t->isFloatTy() ? 32 : 64);
    else if (t->isPointerTy()) r = mkConst(0, 64);
    else if (isa<PoisonValue>(c)) r = mkConst(0, std::min(64u, t->getIntegerBitWidth()));
    else return undefOf(false, std::min(64u, t->getIntegerBitWidth())); // not cached
  }
  else if (auto *ca = dyn_cast<ConstantAggregate>(c)) { std::vector<EX> v; for (auto &o : ca->operands()) v.push_back(constant(cast<Constant>(o))); r = mkAgg(v); }
  else if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<EX> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constant(cd->getElementAsConstant(i))); r = mkAgg(v); }
  else if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) internalError("constant GEP");
      r = mkBin(ADD, constant(ce->getOperand(0)), mkConst(off.getZExtValue(), 64));
    } else if (ce->isCast()) r = evalCast(ce->getOpcode(), constant(ce->getOperand(0)), ce->getOperand(0)->getType(), t);
    else if (ce->getOpcode() == Instruction::Add) r = mkBin(ADD, constant(ce->getOperand(0)), constant(ce->getOperand(1)));
    else if (ce->getOpcode() == Instruction::Sub) r = mkBin(SUB, constant(ce->getOperand(0)), constant(ce->getOperand(1)));
    else internalError("constant expression");
  } else internalError("constant kind");
  constCache[c] = r;
  return r;
}
static unsigned bw(Type *t) { return t->isPointerTy() ? 64 : std::min(64u, t->getIntegerBitWidth()); }
static EX evalCast(unsigned opc, EX a, Type *from, Type *to) {
  if (auto *vt = dyn_cast<FixedVectorType>(to)) {
    if (opc == Instruction::BitCast || !isa<FixedVectorType>(from)) internalError("vector bitcast");
    std::vector<EX> v; for (EX x : *a->agg) v.push_back(evalCast(opc, x, cast<FixedVectorType>(from)->getElementType(), vt->getElementType())); return mkAgg(v);
  }
  if (isa<FixedVectorType>(from)) internalError("vector bitcast");
  switch (opc) {
  case Instruction::Trunc: return mkExtract(a, 0, bw(to));
  case Instruction::ZExt: if (to->getIntegerBitWidth() > 64) internalError("i128"); return mkZext(a, bw(to));
  case Instruction::SExt: if (to->getIntegerBitWidth() > 64) internalError("i128"); return mkSext(a, bw(to));
  case Instruction::PtrToInt: return a->w > bw(to) ? mkExtract(a, 0, bw(to)) : mkZext(a, bw(to));
  case Instruction::IntToPtr: return mkZext(a, 64);
  case Instruction::BitCast:
    if ((to->isFloatTy() || to->isDoubleTy()) && !a->isF) return mkCvt(FOFBITS, a, true, to->isFloatTy() ? 32 : 64);
    if (to->isIntegerTy() && a->isF) return mkCvt(BITSOFF, a, false, a->w);
    return a;
  case Instruction::SIToFP: return mkCvt(SITOFP, a, true, to->isFloatTy() ? 32 : 64);
  case Instruction::UIToFP: return a->w == 1 ? mkIte(a, mkF(1, to->isFloatTy() ? 32 : 64), mkF(0, to->isFloatTy() ? 32 : 64)) : mkCvt(UITOFP, a, true, to->isFloatTy() ? 32 : 64);
  case Instruction::FPToSI: return mkCvt(FPTOSI, a, false, bw(to));
  case Instruction::FPToUI: return mkCvt(FPTOUI, a, false, bw(to));
  case Instruction::FPExt: case Instruction::FPTrunc: return mkCvt(FPCVT, a, true, to->isFloatTy() ? 32 : 64);
  }
  internalError("cast opcode");
}

// ------------------------------------------------------------ exceptions
static std::vector<uint64_t> tiBases(uint64_t ti) {
  std::vector<uint64_t> out; Obj *o = objAt(ti);
  if (!o || o->base != ti || o->size < 24) return out;
  auto *g = Mod->getNamedValue(o->tag);
  auto *gv = dyn_cast_or_null<GlobalVariable>(g);
  if (!gv || !gv->hasInitializer()) return out;
  auto *cs = dyn_cast<ConstantStruct>(gv->getInitializer());
  if (!cs) return out;
  if (cs->getNumOperands() == 3) out.push_back(constant(cs->getOperand(2))->c);
  for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) out.push_back(constant(cs->getOperand(i))->c);
  return out;
}
static bool tiMatches(uint64_t thrown, uint64_t want) { if (thrown == want) return true; for (uint64_t b : tiBases(thrown)) if (tiMatches(b, want)) return true; return false; }
static std::string tiName(uint64_t ti) { Obj *o = objAt(ti); return o ? demangle(o->tag) : "?"; }
static void popFrame() { Frame &f = threads[cur].st.back(); for (Obj *o : f.allocas) { o->alive = false; o->d.clear(); o->st.clear(); o->se.clear(); o->si.clear(); o->sh.reset(); } threads[cur].st.pop_back(); }
static std::map<uint64_t, int> tiIds;
static int tiId(uint64_t ti) { auto &i = tiIds[ti]; if (!i) i = tiIds.size(); return i; }
static void jumpTo(Frame &f, BasicBlock *b) { f.prev = f.bb; f.bb = b; f.it = b->begin();
  // phis, evaluated simultaneously
  std::vector<std::pair<unsigned, EX>> up;
  auto it = b->begin();
  for (; auto *p = dyn_cast<PHINode>(&*it); ++it) {
    Value *v = p->getIncomingValueForBlock(f.prev);
    EX e = isa<Constant>(v) ? constant(cast<Constant>(v)) : f.r[f.fi->slot[v]];
    up.push_back({f.fi->slot[p], e});
  }
  for (auto &u : up) f.r[u.first] = u.second;
  f.it = it;
}
// unwind the current thread with exception x; skipTop: the top frame's current instruction is the throwing call
static void unwind(Exc x) {
  Thread &t = threads[cur];
  // phase 1: is there a handler?
  bool handler = false;
  for (int i = (int)t.st.size() - 1; i >= 0 && !handler; i--) {
    Frame &f = t.st[i];
    auto it = f.it; --it;
    auto *inv = dyn_cast<InvokeInst>(&*it);
    if (!inv) continue;
    auto *lp = inv->getLandingPadInst();
    for (unsigned k = 0; k < lp->getNumClauses(); k++) {
      if (!lp->isCatch(k)) { handler = true; continue; }
      uint64_t c = constant(lp->getClause(k))->c;
      if (c == 0 || tiMatches(x.ti, c)) handler = true;
    }
  }
  if (!handler) pathViolation("uncaught", "uncaught exception " + tiName(x.ti));
  while (!t.st.empty()) {
    Frame &f = t.st.back();
    auto it = f.it; --it;
    if (auto *inv = dyn_cast<InvokeInst>(&*it)) {
      auto *lp = inv->getLandingPadInst();
      int sel = -1;
      for (unsigned k = 0; k < lp->getNumClauses() && sel < 0; k++) {
        if (!lp->isCatch(k)) { internalError("exception filter clause"); }
        uint64_t c = constant(lp->getClause(k))->c;
        if (c == 0) sel = 100000; else if (tiMatches(x.ti, c)) sel = tiId(c);
      }
      if (sel < 0 && lp->isCleanup()) sel = 0;
      if (sel >= 0) {
        t.cur = x;
        BasicBlock *ub = inv->getUnwindDest();
        jumpTo(f, ub);
        f.r[f.fi->slot[lp]] = mkAgg({mkConst(x.obj, 64), mkConst(sel, 32)});
        // step past the landingpad when reached
        return;
      }
    }
    popFrame();
  }
  pathViolation("uncaught", "uncaught exception " + tiName(x.ti));
}

// ------------------------------------------------------------ scheduling
static bool runnable(Thread &t) {
  if (t.done) return false;
  if (t.waitCV) return false;
  if (t.waitAddr) { Obj *o = objAt(t.waitAddr); EX v = o && o->alive ? rawLoad(o, t.waitAddr - o->base, 4, false) : nullptr; return !v || !v->isConst() || (uint32_t)v->c != t.waitVal; }
  if (t.waitMutex) return mutexes[t.waitMutex].owner < 0;
  if (t.waitJoin >= 0) return threads[t.waitJoin].done;
  return true;
}
static int schedVarCount = 0, g_schedBudget = -1; // budget: schedule decisions that may deviate from running on (-1: any number; -1-k: turns of k decisions, round robin)
static int schedTurn = 0;
static void reschedule() {
  std::vector<int> r;
  for (auto &t : threads) if (runnable(t)) r.push_back(t.id);
  if (r.empty()) pathViolation("deadlock", "deadlock: no thread can make progress");
  if (r.size() == 1) { cur = r[0]; return; }
  SH->schedPoints++;
  int dflt = runnable(threads[cur]) ? cur : r[0];
  if (g_schedBudget == 0) { cur = dflt; return; }
  if (g_schedBudget < -1) {
    if (++schedTurn % (-1 - g_schedBudget) == 0) { dflt = r[0]; for (int x : r) if (x > cur) { dflt = x; break; } }
    cur = dflt; return;
  }
  // the schedule is a symbolic variable: which runnable thread goes next
  EX v = mkVar("sched" + std::to_string(schedVarCount++), false, 8, false);
  addPC(mkBin(ULT, v, mkConst(r.size(), 8)));
  uint64_t c = concretize(v);
  cur = r[c]; if (g_schedBudget > 0 && cur != dflt) g_schedBudget--;
}
static void threadDone() {
  Thread &t = threads[cur]; t.done = true; mt = liveThreads() > 1;
  if (t.id == 0) return;
  reschedule();
}

// ------------------------------------------------------------ interpreter
static EX getv(Frame &f, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constant(c);
  EX e = f.r[f.fi->slot.find(v)->second];
  return e;
}
static void setv(Frame &f, const Value *v, EX e) { f.r[f.fi->slot.find(v)->second] = e; }
static void pushCall(Function *fn, const std::vector<EX> &args, CallBase *site) {
  Thread &t = threads[cur];
  if (t.st.size() > 2000) pathViolation("hang", "unbounded recursion");
  noteFunction(fn);
  t.st.emplace_back(fn);
  Frame &nf = t.st.back(); nf.site = site;
  unsigned i = 0;
  for (auto &a : fn->args()) {
    EX v = args[i++];
    if (a.hasByValAttr()) {
      Type *bt = a.getParamByValType(); uint64_t n = DL->getTypeAllocSize(bt);
      Obj *o = newObj(n, 2, "byval"); nf.allocas.push_back(o);
      if (!v->isConst()) v = mkConst(concretize(v), 64);
      memCopy(o->base, v->c, n); v = mkConst(o->base, 64);
    }
    nf.r[nf.fi->slot[&a]] = v;
  }
  for (; i < args.size(); i++) nf.varargs.push_back(args[i]);
}
static void returnTo(EX v) {
  Thread &t = threads[cur];
  CallBase *site = t.st.back().site;
  popFrame();
  if (t.st.empty()) return;
  Frame &f = t.st.back();
  if (site) {
    if (!site->getType()->isVoidTy()) setv(f, site, v);
    if (auto *inv = dyn_cast<InvokeInst>(site)) jumpTo(f, inv->getNormalDest());
  }
}
static uint64_t cz(EX e) { return e->isConst() ? e->c : concretize(e); }
static EX binop(unsigned opc, EX a, EX b) {
  if (a->op == AGG) { std::vector<EX> v; for (size_t i = 0; i < a->agg->size(); i++) v.push_back(binop(opc, (*a->agg)[i], (*b->agg)[i])); return mkAgg(v); }
  switch (opc) {
  case Instruction::Add: return mkBin(ADD, a, b); case Instruction::Sub: return mkBin(SUB, a, b); case Instruction::Mul: return mkBin(MUL, a, b);
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    if (decide(mkBin(EQ, b, mkConst(0, b->w)))) pathViolation("arith", "integer division by zero");
    return mkBin(opc == Instruction::UDiv ? UDIV : opc == Instruction::SDiv ? SDIV : opc == Instruction::URem ? UREM : SREM, a, b);
  }
  case Instruction::And: return mkBin(AND, a, b); case Instruction::Or: return mkBin(OR, a, b); case Instruction::Xor: return mkBin(XOR, a, b);
  case Instruction::Shl: return mkBin(SHL, a, b); case Instruction::LShr: return mkBin(LSHR, a, b); case Instruction::AShr: return mkBin(ASHR, a, b);
  case Instruction::FAdd: return mkFBin(FADD, a, b); case Instruction::FSub: return mkFBin(FSUB, a, b); case Instruction::FMul: return mkFBin(FMUL, a, b);
  case Instruction::FDiv:
    if (g_fp == FpMode::Real && !(a->isConst() && b->isConst())) {
      if (decide(mkFCmp(FEQ, b, mkF(0, b->w)))) pathViolation("arith", "floating-point division by zero");
      if (b->isConst() && std::isfinite(1.0 / fval(b)) && fval(b) != 0) { int ex; double m = frexp(fval(b), &ex); if (fabs(m) == 0.5) return mkFBin(FMUL, a, mkF(1.0 / fval(b), b->w)); }
    }
    return mkFBin(FDIV, a, b);
  case Instruction::FRem: return mkFBin(FREM_, a, b);
  }
  internalError("binary opcode");
}
static EX icmp(CmpInst::Predicate p, EX a, EX b) {
  if (a->op == AGG) { std::vector<EX> v; for (size_t i = 0; i < a->agg->size(); i++) v.push_back(icmp(p, (*a->agg)[i], (*b->agg)[i])); return mkAgg(v); }
  switch (p) {
  case CmpInst::ICMP_EQ: return mkBin(EQ, a, b); case CmpInst::ICMP_NE: return mkNot(mkBin(EQ, a, b));
  case CmpInst::ICMP_ULT: return mkBin(ULT, a, b); case CmpInst::ICMP_ULE: return mkBin(ULE, a, b); case CmpInst::ICMP_UGT: return mkBin(ULT, b, a); case CmpInst::ICMP_UGE: return mkBin(ULE, b, a);
  case CmpInst::ICMP_SLT: if (g_fp == FpMode::Real && a->op == BITSOFF && b->op == CONST && !b->c) return mkFCmp(FLT, a->k[0], mkF(0, a->w)); return mkBin(SLT, a, b); case CmpInst::ICMP_SLE: return mkBin(SLE, a, b); case CmpInst::ICMP_SGT: return mkBin(SLT, b, a); case CmpInst::ICMP_SGE: return mkBin(SLE, b, a);
  default: internalError("icmp");
  }
}
static EX fcmp(CmpInst::Predicate p, EX a, EX b) {
  if (a->op == AGG) { std::vector<EX> v; for (size_t i = 0; i < a->agg->size(); i++) v.push_back(fcmp(p, (*a->agg)[i], (*b->agg)[i])); return mkAgg(v); }
  EX uno = mkBin(OR, mkIsNan(a), mkIsNan(b));
  EX eq = mkFCmp(FEQ, a, b), lt = mkFCmp(FLT, a, b), gt = mkFCmp(FLT, b, a), le = mkFCmp(FLE, a, b), ge = mkFCmp(FLE, b, a);
  switch (p) {
  case CmpInst::FCMP_FALSE: return mkFalse(); case CmpInst::FCMP_TRUE: return mkTrue();
  case CmpInst::FCMP_OEQ: return eq; case CmpInst::FCMP_OGT: return gt; case CmpInst::FCMP_OGE: return ge; case CmpInst::FCMP_OLT: return lt; case CmpInst::FCMP_OLE: return le;
  case CmpInst::FCMP_ONE: return mkBin(OR, lt, gt); case CmpInst::FCMP_ORD: return mkNot(uno); case CmpInst::FCMP_UNO: return uno;
  case CmpInst::FCMP_UEQ: return mkBin(OR, uno, eq); case CmpInst::FCMP_UGT: return mkBin(OR, uno, gt); case CmpInst::FCMP_UGE: return mkBin(OR, uno, ge);
  case CmpInst::FCMP_ULT: return mkBin(OR, uno, lt); case CmpInst::FCMP_ULE: return mkBin(OR, uno, le); case CmpInst::FCMP_UNE: return mkNot(eq);
  default: internalError("fcmp");
  }
}
// ---- assertions
static void assume(EX c) {
  if (isTrue(c)) return;
  if (isFalse(c)) { SH->paths++; finish(0); }
  bool v;
  if (!(modelSays(c, v) && v)) {
    Z3_model m = nullptr; Z3_lbool r = query(c, &m); if (r == Z3_L_UNDEF) r = freshQuery(toZ3(c), &m);
    if (r == Z3_L_FALSE) { SH->paths++; finish(0); }
    M = m;
  }
  addPC(c);
}
// A satisfying assignment with small, simple input values is preferred: it survives rounding when replayed.
// Inputs are restricted in steps; the solver still decides each attempt.
static uint64_t rngState = 88172645463325252ull;
static uint64_t rng() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static Z3_ast conj(std::vector<Z3_ast> v) { return v.size() == 1 ? v[0] : Z3_mk_and(g_ctx, v.size(), v.data()); }
static bool simpleModel(EX c, Z3_model *mo, bool cheapOnly) {
  std::vector<EX> fv; for (auto &u : userVars) if (u.second->isF) fv.push_back(u.second);
  for (int a = 0; a < (g_fp == FpMode::Real ? 6 : 0); a++) { // fixed small values for the real inputs
    if (fv.empty()) break;
    std::vector<Z3_ast> q{toZ3(c)};
    for (EX v : fv) { double x = (double)(int)(rng() % 15) - 7; if (a & 1) x /= 4; q.push_back(toZ3(mkFCmp(FEQ, v, mkF(x, v->w)))); }
    if (query(nullptr, mo, conj(q)) == Z3_L_TRUE) return true;
  }
  for (int a = 0; a < (g_fp == FpMode::Real ? 4 : 0); a++) { // leave a few inputs free
    if (fv.size() < 3) break;
    std::vector<Z3_ast> q{toZ3(c)};
    for (EX v : fv) { if (rng() % fv.size() < 2 + (unsigned)a) continue; double x = (double)(int)(rng() % 15) - 7; q.push_back(toZ3(mkFCmp(FEQ, v, mkF(x, v->w)))); }
    if (query(nullptr, mo, conj(q)) == Z3_L_TRUE) return true;
  }
  if (cheapOnly) return false;
  std::vector<Z3_ast> q{toZ3(c)};
  for (EX v : fv) { q.push_back(toZ3(mkFCmp(FLE, v, mkF(16, v->w)))); q.push_back(toZ3(mkFCmp(FLE, mkF(-16, v->w), v))); }
  return query(nullptr, mo, conj(q)) == Z3_L_TRUE;
}
static void assertCond(EX c, const std::string &label, const char *kind = "assert", EX robust = nullptr, EX veryRobust = nullptr) {
  SH->asserts++;
  if (isTrue(c)) return;
  auto k = known.find(c); if (k != known.end() && k->second) return;
  EX neg = mkNot(c);
  Z3_model m = nullptr; Z3_lbool r = Z3_L_UNDEF;
  SH->assertQueries++;
  if (isFalse(c)) { ensureModel(); if (!M) { Z3_lbool q = freshQuery(nullptr, &m); if (q == Z3_L_FALSE) { finish(0); } M = m; } m = M; r = m ? Z3_L_TRUE : Z3_L_UNDEF; }
  else {
    r = query(neg, &m);
    if (r == Z3_L_UNDEF && simpleModel(veryRobust ? veryRobust : neg, &m, true)) r = Z3_L_TRUE;
    if (r == Z3_L_UNDEF) r = freshQuery(toZ3(neg), &m);
  }
  if (r == Z3_L_UNDEF) { SH->incomplete |= 4; lockedAppend("errors.txt", "solver gave no answer on assertion " + label + "\n"); return; }
  if (r == Z3_L_FALSE) { known[c] = true; return; }
  if (robust && !robust->isConst()) { // prefer a model where the difference survives rounding
    Z3_model m2 = nullptr; Z3_lbool q = Z3_L_UNDEF;
    if (simpleModel(veryRobust ? veryRobust : robust, &m2, false)) q = Z3_L_TRUE; else q = query(robust, &m2);
    if (q == Z3_L_UNDEF) q = freshQuery(toZ3(robust), &m2);
    if (q == Z3_L_TRUE) m = m2;
    else if (q == Z3_L_FALSE) return; // difference below tolerance everywhere in the bounds: holds up to rounding
    else { SH->incomplete |= 4; lockedAppend("errors.txt", "solver gave no answer on assertion (tolerance) " + label + "\n"); return; }
  }
  report(kind, label, m);
  if (isFalse(c)) { SH->paths++; finish(0); }
  // continue with the executions where it held
  Z3_model m3 = nullptr; Z3_lbool q = query(c, &m3);
  if (q == Z3_L_FALSE) { SH->paths++; finish(0); }
  M = q == Z3_L_TRUE ? m3 : nullptr;
  addPC(c);
}
static EX fabsE(EX a) { return mkFUn(FABS, a); }
static void assertClose(EX a, EX b, const std::string &label) {
  if (a->w != b->w) { a = mkCvt(FPCVT, a, true, 64); b = mkCvt(FPCVT, b, true, 64); }
  if (a == b) { SH->asserts++; return; }
  if (a->isConst() && b->isConst()) {
    double x = fval(a), y = fval(b), s = std::max({1.0, fabs(x), fabs(y)});
    bool ok = (x == y) || fabs(x - y) <= 1e-5 * s;
    return assertCond(mkConst(ok, 1), label);
  }
  if (g_fp == FpMode::Real) {
    if ((a->isConst() && !std::isfinite(fval(a))) || (b->isConst() && !std::isfinite(fval(b)))) return assertCond(mkFalse(), label);
    EX d = mkFBin(FSUB, a, b);
    // |a-b| > 1e-5 * max(1,|a|,|b|): the violation that rounding cannot explain
    EX tol = mkF(1e-5), one = mkF(1);
    EX fa = fabsE(a), fb = fabsE(b), ad = fabsE(d);
    EX sc = mkIte(mkFCmp(FLT, fa, fb), fb, fa); sc = mkIte(mkFCmp(FLT, sc, one), one, sc);
    EX rob = mkFCmp(FLT, mkFBin(FMUL, tol, sc), ad);
    assertCond(mkFCmp(FEQ, a, b), label, "assert", rob, mkFCmp(FLT, mkFBin(FMUL, mkF(1e-2), sc), ad));
  } else {
    EX both = mkBin(AND, mkIsNan(a), mkIsNan(b));
    assertCond(mkBin(OR, both, mkFCmp(FEQ, a, b)), label);
  }
}

// ---- external functions
typedef std::function<EX(CallBase *, std::vector<EX> &)> Ext;
static std::unordered_map<std::string, Ext> ext;
static bool g_blocked = false;   // external call must be retried when scheduled again
static bool g_noret = false;     // control was transferred (unwound, thread switch)
static EX userVar(const std::string &n, bool isF, unsigned w) { EX v = mkVar(n, isF, w, true); userVars.push_back({n, v}); return v; }
static EX uf(int id, std::vector<EX> &a) { return mkUF(id, a[0], a.size() > 1 ? a[1] : nullptr); }
static int mutexLock(uint64_t a) {
  Thread &t = threads[cur];
  if (!t.atSched && mt) { t.atSched = true; t.waitMutex = a; g_blocked = true; return 0; }
  t.atSched = false; t.waitMutex = 0;
  Mutex &m = mutexes[a];
  if (m.owner == t.id) {
    Obj *o = objAt(a); EX k = o && o->alive && o->kind != 3 && a - o->base + 20 <= o->size ? rawLoad(o, a - o->base + 16, 4, false) : nullptr;
    if (k && k->isConst() && k->c == 1) { m.count++; return 1; } // recursive
    pathViolation("deadlock", "deadlock: mutex locked twice by one thread");
  }
  if (m.owner >= 0) { t.atSched = true; t.waitMutex = a; g_blocked = true; return 0; }
  m.owner = t.id; joinVC(t.vc, m.vc); if (mt) schedTrace.push_back(t.id);
  return 1;
}
static void mutexUnlock(uint64_t a) {
  Mutex &m = mutexes[a]; Thread &t = threads[cur];
  if (m.owner != t.id) pathViolation("deadlock", "mutex unlocked by a thread that does not hold it");
  if (m.count) { m.count--; return; }
  m.owner = -1; m.vc = t.vc; t.vc[t.slot]++;
}
static uint64_t ptrAt(uint64_t p) { std::string e; Obj *o = checkAccess(p, 8, false, e); if (!o) pathViolation("memory", memLabel(e)); return cz(rawLoad(o, p - o->base, 8, false)); }
// condition variables: release the mutex, sleep until notified, take the mutex again (no spurious wake-ups)
static void cvWait(uint64_t cv, uint64_t m) {
  Thread &t = threads[cur];
  if (!t.inWait) { mutexUnlock(m); t.inWait = true; t.waitCV = cv; g_blocked = true; return; }
  if (!mutexLock(m)) return;
  t.inWait = false;
}
static void cvNotify(uint64_t cv, bool all) {
  std::vector<Thread *> w; for (auto &t : threads) if (!t.done && t.waitCV == cv) w.push_back(&t);
  if (w.empty()) return;
  if (all) { for (auto *t : w) t->waitCV = 0; return; }
  size_t k = 0;
  if (w.size() > 1) { EX v = mkVar("wake", false, 8, false); addPC(mkBin(ULT, v, mkConst(w.size(), 8))); k = concretize(v); }
  w[k]->waitCV = 0;
}
static void atomicSync(uint64_t a, bool acq, bool rel);
static std::map<uint64_t, Exc> g_excs;
static EX roundE(EX x);
static bool g_symRand = false; static uint64_t g_randCount = 0;
static void initExt() {
  auto F64 = [](EX e) { return e; };
  (void)F64;
  ext["_Znwm"] = ext["_Znam"] = ext["malloc"] = [](CallBase *, std::vector<EX> &a) {
    uint64_t n = cz(a[0]); uint64_t p = allocHeap(n, "heap");
    if (!p) { // too big: bad_alloc
      Function *f = Mod->getFunction("__model_bad_alloc"); if (!f) pathViolation("memory", "allocation of an absurd size");
      pushCall(f, {}, nullptr); g_noret = true; return (EX) nullptr; }
    return mkConst(p, 64); };
  ext["_ZnwmSt11align_val_t"] = ext["_Znwm"];
  ext["_ZnwmRKSt9nothrow_t"] = [](CallBase *, std::vector<EX> &a) { return mkConst(allocHeap(cz(a[0]), "heap"), 64); };
  ext["calloc"] = [](CallBase *, std::vector<EX> &a) { uint64_t n = cz(a[0]) * cz(a[1]); Obj *o = newObj(n, 1, "heap"); std::fill(o->st.begin(), o->st.end(), 1); return mkConst(o->base, 64); };
  ext["_ZdlPv"] = ext["_ZdaPv"] = ext["free"] = ext["_ZdlPvm"] = ext["_ZdaPvm"] = ext["_ZdlPvSt11align_val_t"] = ext["_ZdlPvmSt11align_val_t"] = ext["_ZdlPvRKSt9nothrow_t"] = [](CallBase *, std::vector<EX> &a) { freeHeap(cz(a[0])); return (EX) nullptr; };
  ext["memcpy"] = ext["memmove"] = [](CallBase *, std::vector<EX> &a) { uint64_t n = cz(a[2]); memCopy(cz(a[0]), cz(a[1]), n); return a[0]; };
  ext["memset"] = [](CallBase *, std::vector<EX> &a) {
    uint64_t d = cz(a[0]), n = cz(a[2]); EX b = mkExtract(a[1], 0, 8); std::string err; if (!n) return a[0];
    Obj *o = checkAccess(d, n, true, err); if (!o) pathViolation("memory", memLabel(err));
    raceCheck(o, d - o->base, n, true);
    for (uint64_t i = 0; i < n; i++) rawStore(o, d - o->base + i, b); return a[0]; };
  ext["memcmp"] = ext["bcmp"] = [](CallBase *, std::vector<EX> &a) {
    uint64_t p = cz(a[0]), q = cz(a[1]), n = cz(a[2]); std::string err; EX r = mkConst(0, 32);
    for (uint64_t i = n; i-- > 0;) {
      Obj *x = checkAccess(p + i, 1, false, err), *y = checkAccess(q + i, 1, false, err); if (!x || !y) pathViolation("memory", memLabel(err));
      raceCheck(x, p + i - x->base, 1, false); raceCheck(y, q + i - y->base, 1, false);
      EX u = byteAt(x, p + i - x->base), v = byteAt(y, q + i - y->base);
      r = mkIte(mkBin(EQ, u, v), r, mkIte(mkBin(ULT, u, v), mkConst(~0ull, 32), mkConst(1, 32)));
    }
    return r; };
  // the text of an unknown number (see vs_streams.h) counts as 13 characters, none of them special
  static auto token = [](uint64_t q) { std::string err; auto at = [&](uint64_t i) { Obj *o = checkAccess(q + i, 1, false, err); if (!o) return -1; EX b = byteAt(o, q + i - o->base); return b->isConst() ? (int)b->c : -1; }; if (at(0) != 1) return false; int t = at(1); return (t == 'd' || t == 'i') && at(12) == 2; };
  ext["strlen"] = [](CallBase *, std::vector<EX> &a) { uint64_t p = cz(a[0]), n = 0; std::string err;
    for (;; n++) { if (token(p + n)) { n += 12; continue; } Obj *o = checkAccess(p + n, 1, false, err); if (!o) pathViolation("memory", memLabel(err)); EX b = byteAt(o, p + n - o->base); if (decide(mkBin(EQ, b, mkConst(0, 8)))) break; } return mkConst(n, 64); };
  ext["memchr"] = [](CallBase *, std::vector<EX> &a) { uint64_t p = cz(a[0]), n = cz(a[2]); EX c = mkExtract(a[1], 0, 8); std::string err;
    for (uint64_t i = 0; i < n; i++) { if (i + 13 <= n && token(p + i)) { i += 12; continue; } Obj *o = checkAccess(p + i, 1, false, err); if (!o) pathViolation("memory", memLabel(err)); if (decide(mkBin(EQ, byteAt(o, p + i - o->base), c))) return mkConst(p + i, 64); } return mkConst(0, 64); };
  for (const char *n : {"fflush", "srand", "__cxa_atexit", "__cxa_thread_atexit", "usleep", "sched_yield", "nanosleep", "__cxa_thread_atexit_impl", "setvbuf"})
    ext[n] = [](CallBase *cb, std::vector<EX> &) { return cb->getType()->isIntegerTy() ? mkConst(0, cb->getType()->getIntegerBitWidth()) : (EX) nullptr; };
  ext["sym_sched"] = [](CallBase *, std::vector<EX> &a) { g_schedBudget = (int)(int32_t)cz(a[0]); return (EX) nullptr; };
  ext["sym_rand"] = [](CallBase *, std::vector<EX> &a) { g_symRand = cz(a[0]) != 0; return (EX) nullptr; };
  ext["rand"] = [](CallBase *, std::vector<EX> &) {
    if (!g_symRand) return mkConst((12345ull + 1048573ull * g_randCount++) & 0x7fffffff, 32);
    EX v = userVar("rand", false, 32); assume(mkBin(SLE, mkConst(0, 32), v)); return v; };
  ext["exp"] = ext["expf"] = [](CallBase *, std::vector<EX> &a) { return uf(UF_EXP, a); };
  ext["exp2"] = ext["exp2f"] = [](CallBase *, std::vector<EX> &a) { return uf(UF_EXP2, a); };
  ext["tanh"] = ext["tanhf"] = [](CallBase *, std::vector<EX> &a) { return uf(UF_TANH, a); };
  ext["log2"] = ext["log2f"] = [](CallBase *, std::vector<EX> &a) { return uf(UF_LOG2, a); };
  ext["log"] = ext["logf"] = [](CallBase *, std::vector<EX> &a) { return uf(UF_LOG, a); };
  ext["log10"] = ext["log10f"] = [](CallBase *, std::vector<EX> &a) { return uf(UF_LOG10, a); };
  ext["pow"] = ext["powf"] = [](CallBase *, std::vector<EX> &a) { return uf(UF_POW, a); };
  ext["sqrt"] = ext["sqrtf"] = [](CallBase *, std::vector<EX> &a) { return mkFUn(FSQRT, a[0]); };
  ext["round"] = ext["roundf"] = [](CallBase *, std::vector<EX> &a) { return roundE(a[0]); };
  ext["lround"] = ext["lroundf"] = ext["llround"] = [](CallBase *cb, std::vector<EX> &a) { return mkCvt(FPTOSI, roundE(a[0]), false, bw(cb->getType())); };
  ext["hypot"] = ext["hypotf"] = [](CallBase *, std::vector<EX> &a) { return mkFUn(FSQRT, mkFBin(FADD, mkFBin(FMUL, a[0], a[0]), mkFBin(FMUL, a[1], a[1]))); };
  ext["expm1"] = ext["expm1f"] = [](CallBase *, std::vector<EX> &a) { return mkFBin(FSUB, mkUF(UF_EXP, a[0]), mkF(1, a[0]->w)); };
  ext["log1p"] = ext["log1pf"] = [](CallBase *, std::vector<EX> &a) { return mkUF(UF_LOG, mkFBin(FADD, mkF(1, a[0]->w), a[0])); };
  ext["sinh"] = ext["cosh"] = ext["sinhf"] = ext["coshf"] = [](CallBase *cb, std::vector<EX> &a) { EX p = mkUF(UF_EXP, a[0]), q = mkUF(UF_EXP, mkFUn(FNEG, a[0])); bool s = cb->getCalledFunction() && cb->getCalledFunction()->getName().startswith("sinh"); return mkFBin(FMUL, mkF(0.5, a[0]->w), mkFBin(s ? FSUB : FADD, p, q)); };
  ext["fabs"] = ext["fabsf"] = [](CallBase *, std::vector<EX> &a) { return mkFUn(FABS, a[0]); };
  ext["ceil"] = ext["ceilf"] = [](CallBase *, std::vector<EX> &a) { return mkFUn(FCEIL, a[0]); };
  ext["floor"] = ext["floorf"] = [](CallBase *, std::vector<EX> &a) { return mkFUn(FFLOOR, a[0]); };
  ext["fmax"] = ext["fmaxf"] = [](CallBase *, std::vector<EX> &a) { return mkIte(mkIsNan(a[0]), a[1], mkIte(mkFCmp(FLT, a[0], a[1]), a[1], a[0])); };
  ext["fmin"] = ext["fminf"] = [](CallBase *, std::vector<EX> &a) { return mkIte(mkIsNan(a[0]), a[1], mkIte(mkFCmp(FLT, a[1], a[0]), a[1], a[0])); };
  ext["_ZNSt6chrono3_V212steady_clock3nowEv"] = ext["_ZNSt6chrono3_V212system_clock3nowEv"] = [](CallBase *, std::vector<EX> &) { return mkVar("now", false, 64, false); };
  ext["time"] = [](CallBase *, std::vector<EX> &) { return mkVar("now", false, 64, false); };
  ext["abort"] = [](CallBase *, std::vector<EX> &) -> EX { pathViolation("abort", "abort() called"); };
  ext["exit"] = ext["_exit"] = [](CallBase *, std::vector<EX> &) -> EX { pathViolation("abort", "exit() called"); };
  ext["_ZSt9terminatev"] = [](CallBase *, std::vector<EX> &) -> EX { pathViolation("abort", "std::terminate() called"); };
  ext["__assert_fail"] = [](CallBase *, std::vector<EX> &a) -> EX {
    if (g_expectAbort) pathEnd();
    pathViolation("abort", "assertion failed in the code: " + cstr(cz(a[0]))); };
  ext["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = [](CallBase *, std::vector<EX> &a) -> EX { pathViolation("memory", memLabel("container used outside its size (" + cstr(cz(a[3])) + ")")); };
  ext["__cxa_pure_virtual"] = [](CallBase *, std::vector<EX> &) -> EX { pathViolation("abort", "pure virtual call"); };
  // exceptions
  ext["__cxa_allocate_exception"] = [](CallBase *, std::vector<EX> &a) { return mkConst(allocHeap(cz(a[0]), "exception"), 64); };
  ext["__cxa_free_exception"] = [](CallBase *, std::vector<EX> &a) { freeHeap(cz(a[0])); return (EX) nullptr; };
  ext["__cxa_throw"] = [](CallBase *, std::vector<EX> &a) { Exc x; x.obj = cz(a[0]); x.ti = cz(a[1]); x.dtor = cz(a[2]); g_noret = true; unwind(x); return (EX) nullptr; };
  ext["__cxa_begin_catch"] = [](CallBase *, std::vector<EX> &a) { Thread &t = threads[cur]; t.caught.push_back(t.cur); return a[0]; };
  ext["__cxa_get_exception_ptr"] = [](CallBase *, std::vector<EX> &a) { return a[0]; };
  ext["__cxa_end_catch"] = [](CallBase *, std::vector<EX> &) { Thread &t = threads[cur]; if (!t.caught.empty()) t.caught.pop_back(); return (EX) nullptr; };
  ext["__cxa_rethrow"] = [](CallBase *, std::vector<EX> &) { Thread &t = threads[cur]; Exc x = t.caught.back(); t.caught.pop_back(); t.caught.push_back(x); g_noret = true; unwind(x); return (EX) nullptr; };
  ext["_Unwind_Resume"] = [](CallBase *, std::vector<EX> &) { g_noret = true; unwind(threads[cur].cur); return (EX) nullptr; };
  ext["__cxa_guard_acquire"] = [](CallBase *, std::vector<EX> &a) { // other threads wait while one initialises
    uint64_t p = cz(a[0]); std::string e; Obj *o = checkAccess(p, 1, false, e); if (!mutexLock(p)) return mkConst(0, 32);
    EX b = byteAt(o, p - o->base); if (b->isConst() && b->c) { mutexUnlock(p); return mkConst(0, 32); } return mkConst(1, 32); };
  ext["__cxa_guard_release"] = [](CallBase *, std::vector<EX> &a) { uint64_t p = cz(a[0]); std::string e; Obj *o = checkAccess(p, 1, true, e); rawStore(o, p - o->base, mkConst(1, 8)); atomicSync(p, true, true); mutexUnlock(p); return (EX) nullptr; };
  ext["__cxa_guard_abort"] = [](CallBase *, std::vector<EX> &a) { mutexUnlock(cz(a[0])); return (EX) nullptr; };
  ext["_ZSt17current_exceptionv"] = [](CallBase *, std::vector<EX> &a) {
    Thread &t = threads[cur]; uint64_t p = cz(a[0]); std::string e; Obj *o = checkAccess(p, 8, true, e); if (!o) pathViolation("memory", memLabel(e));
    uint64_t x = 0; if (!t.caught.empty()) { x = t.caught.back().obj; g_excs[x] = t.caught.back(); } rawStore(o, p - o->base, mkConst(x, 64)); return (EX) nullptr; };
  ext["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"] = [](CallBase *, std::vector<EX> &a) { auto it = g_excs.find(ptrAt(cz(a[0]))); if (it == g_excs.end()) pathViolation("abort", "rethrow of no exception"); g_noret = true; unwind(it->second); return (EX) nullptr; };
  ext["_ZNSt15__exception_ptr13exception_ptrC1EPv"] = ext["_ZNSt15__exception_ptr13exception_ptrC2EPv"] = [](CallBase *, std::vector<EX> &a) {
    Exc x = threads[cur].lastAlloc; x.obj = cz(a[1]); g_excs[x.obj] = x; uint64_t p = cz(a[0]); std::string e; Obj *o = checkAccess(p, 8, true, e); rawStore(o, p - o->base, mkConst(x.obj, 64)); return (EX) nullptr; };
  ext["__cxa_init_primary_exception"] = [](CallBase *, std::vector<EX> &a) { Exc x{}; x.obj = cz(a[0]); x.ti = cz(a[1]); x.dtor = cz(a[2]); threads[cur].lastAlloc = x; return a[0]; };
  for (const char *n : {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"}) ext[n] = [](CallBase *, std::vector<EX> &) { return (EX) nullptr; };
  ext["_ZSt18uncaught_exceptionv"] = [](CallBase *, std::vector<EX> &) { return mkConst(0, 1); };
  ext["_ZSt19uncaught_exceptionsv"] = [](CallBase *, std::vector<EX> &) { return mkConst(0, 32); };
  // condition variables and futexes
  for (const char *n : {"_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev", "_ZNSt18condition_variableC2Ev", "_ZNSt18condition_variableD2Ev"}) ext[n] = [](CallBase *, std::vector<EX> &) { return (EX) nullptr; };
  ext["_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"] = [](CallBase *, std::vector<EX> &a) { cvWait(cz(a[0]), ptrAt(cz(a[1]))); return (EX) nullptr; };
  ext["_ZNSt18condition_variable10notify_oneEv"] = [](CallBase *, std::vector<EX> &a) { cvNotify(cz(a[0]), false); return (EX) nullptr; };
  ext["_ZNSt18condition_variable10notify_allEv"] = [](CallBase *, std::vector<EX> &a) { cvNotify(cz(a[0]), true); return (EX) nullptr; };
  ext["pthread_cond_wait"] = [](CallBase *, std::vector<EX> &a) { cvWait(cz(a[0]), cz(a[1])); return mkConst(0, 32); };
  ext["pthread_cond_signal"] = [](CallBase *, std::vector<EX> &a) { cvNotify(cz(a[0]), false); return mkConst(0, 32); };
  ext["pthread_cond_broadcast"] = [](CallBase *, std::vector<EX> &a) { cvNotify(cz(a[0]), true); return mkConst(0, 32); };
  ext["pthread_cond_init"] = ext["pthread_cond_destroy"] = ext["pthread_mutex_init"] = ext["pthread_mutex_destroy"] = ext["pthread_rwlock_init"] = ext["pthread_rwlock_destroy"] = [](CallBase *, std::vector<EX> &) { return mkConst(0, 32); };
  ext["_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE"] = [](CallBase *, std::vector<EX> &a) {
    Thread &t = threads[cur]; uint64_t p = cz(a[1]); uint32_t v = (uint32_t)cz(a[2]);
    if (!t.waitAddr) { t.waitAddr = p; t.waitVal = v; if (!runnable(t)) { g_blocked = true; return mkTrue(); } }
    t.waitAddr = 0; return mkTrue(); };
  ext["_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj"] = [](CallBase *, std::vector<EX> &) { return (EX) nullptr; };
  // reader/writer locks: readers exclude each other as well
  ext["pthread_rwlock_rdlock"] = ext["pthread_rwlock_wrlock"] = [](CallBase *, std::vector<EX> &a) { mutexLock(cz(a[0])); return mkConst(0, 32); };
  ext["pthread_rwlock_unlock"] = [](CallBase *, std::vector<EX> &a) { mutexUnlock(cz(a[0])); return mkConst(0, 32); };
  ext["__dynamic_cast"] = [](CallBase *, std::vector<EX> &a) {
    uint64_t p = cz(a[0]); if (!p) return mkConst(0, 64);
    std::string e; Obj *o = checkAccess(p, 8, false, e); if (!o) pathViolation("memory", memLabel(e));
    uint64_t vt = cz(rawLoad(o, p - o->base, 8, false)); Obj *v = checkAccess(vt - 8, 8, false, e); if (!v) pathViolation("memory", memLabel(e));
    uint64_t ti = cz(rawLoad(v, vt - 8 - v->base, 8, false));
    return tiMatches(ti, cz(a[2])) ? a[0] : mkConst(0, 64); };
  // threads
  ext["_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"] = [](CallBase *, std::vector<EX> &a) {
    uint64_t self = cz(a[0]), up = cz(a[1]); std::string e;
    Obj *uo = checkAccess(up, 8, true, e); uint64_t stp = cz(rawLoad(uo, up - uo->base, 8, false)); rawStore(uo, up - uo->base, mkConst(0, 64));
    // a slot is free if no thread has it, or if the last one to have it is over and this thread knows all it did
    int slot = -1; for (int i = 1; i < NT && slot < 0; i++) { bool busy = false; for (auto &x : threads) if (x.slot == i && (!x.done || x.vc[i] > threads[cur].vc[i])) busy = true; if (!busy) slot = i; }
    if (slot < 0) internalError("too many threads on one path");
    threads.emplace_back(); Thread &t = threads.back(); t.id = threads.size() - 1; t.slot = slot; t.state = stp; t.vc = threads[cur].vc; t.vc[slot]++; threads[cur].vc[threads[cur].slot]++;
    // entry: state->_M_run(), vtable slot 2
    Obj *so = checkAccess(stp, 8, false, e); uint64_t vt = cz(rawLoad(so, stp - so->base, 8, false)); Obj *v = checkAccess(vt + 16, 8, false, e);
    uint64_t fn = cz(rawLoad(v, vt + 16 - v->base, 8, false));
    int save = cur; cur = t.id; pushCall(objAt(fn)->fn, {mkConst(stp, 64)}, nullptr); cur = save;
    Obj *to = checkAccess(self, 8, true, e); rawStore(to, self - to->base, mkConst(t.id, 64));
    mt = liveThreads() > 1;
    return (EX) nullptr; };
  ext["_ZNSt6thread4joinEv"] = [](CallBase *, std::vector<EX> &a) {
    uint64_t self = cz(a[0]); std::string e; Obj *o = checkAccess(self, 8, true, e); if (!o) pathViolation("memory", memLabel(e));
    uint64_t id = cz(rawLoad(o, self - o->base, 8, false));
    if (id == 0 || id >= threads.size()) pathViolation("abort", "join() on a thread that is not joinable");
    Thread &t = threads[cur];
    if (!threads[id].done) { t.waitJoin = id; g_blocked = true; return (EX) nullptr; }
    t.waitJoin = -1; joinVC(t.vc, threads[id].vc); rawStore(o, self - o->base, mkConst(0, 64)); mt = liveThreads() > 1;
    return (EX) nullptr; };
  ext["_ZNSt6thread6detachEv"] = [](CallBase *, std::vector<EX> &a) { uint64_t p = cz(a[0]); std::string e; Obj *o = checkAccess(p, 8, true, e); if (!o) pathViolation("memory", memLabel(e)); rawStore(o, p - o->base, mkConst(0, 64)); return (EX) nullptr; };
  ext["_ZNSt6thread20hardware_concurrencyEv"] = [](CallBase *, std::vector<EX> &) { return mkConst(2, 32); };
  ext["pthread_mutex_lock"] = [](CallBase *, std::vector<EX> &a) { mutexLock(cz(a[0])); return mkConst(0, 32); };
  ext["pthread_mutex_trylock"] = [](CallBase *, std::vector<EX> &a) { Mutex &m = mutexes[cz(a[0])]; if (m.owner >= 0) return mkConst(16, 32); m.owner = cur; joinVC(vc(), m.vc); return mkConst(0, 32); };
  ext["pthread_mutex_unlock"] = [](CallBase *, std::vector<EX> &a) { mutexUnlock(cz(a[0])); return mkConst(0, 32); };
  ext["pthread_create"] = ext["__pthread_key_create"] = ext["pthread_self"] = [](CallBase *cb, std::vector<EX> &) { return mkConst(threads[cur].id + 1, cb->getType()->isPointerTy() ? 64 : cb->getType()->getIntegerBitWidth()); };
  // harness interface
  ext["sym_int"] = [](CallBase *, std::vector<EX> &a) { EX v = userVar(cstr(cz(a[0])), false, 32); assume(mkBin(SLE, a[1], v)); assume(mkBin(SLE, v, a[2])); return v; };
  ext["sym_byte"] = [](CallBase *, std::vector<EX> &a) { return userVar(cstr(cz(a[0])), false, 8); };
  ext["sym_u64"] = [](CallBase *, std::vector<EX> &a) { return userVar(cstr(cz(a[0])), false, 64); };
  ext["sym_bool"] = [](CallBase *, std::vector<EX> &a) { return userVar(cstr(cz(a[0])), false, 1); };
  ext["sym_double"] = ext["sym_float"] = [](CallBase *cb, std::vector<EX> &a) {
    unsigned w = cb->getType()->isFloatTy() ? 32 : 64;
    EX v = userVar(cstr(cz(a[0])), true, w);
    if (g_fp == FpMode::Real) { assume(mkFCmp(FLE, v, mkF(1e6, w))); assume(mkFCmp(FLE, mkF(-1e6, w), v)); }
    return v; };
  ext["sym_double_in"] = [](CallBase *, std::vector<EX> &a) { EX v = userVar(cstr(cz(a[0])), true, 64); assume(mkFCmp(FLE, a[1], v)); assume(mkFCmp(FLE, v, a[2])); return v; };
  ext["sym_float_in"] = [](CallBase *, std::vector<EX> &a) { EX v = userVar(cstr(cz(a[0])), true, 32); assume(mkFCmp(FLE, a[1], v)); assume(mkFCmp(FLE, v, a[2])); return v; };
  // a value of the modelled environment (not an input of the harness)
  ext["model_fresh_double"] = [](CallBase *, std::vector<EX> &) { return undefOf(true, 64); };
  ext["model_fresh_long"] = [](CallBase *, std::vector<EX> &) { return mkVar("env", false, 64, false); };
  ext["model_assume"] = [](CallBase *, std::vector<EX> &a) { assume(mkNot(mkBin(EQ, a[0], mkConst(0, a[0]->w)))); return (EX) nullptr; };
  ext["model_is_concrete_l"] = [](CallBase *, std::vector<EX> &a) { return mkConst(a[0]->isConst(), 32); };
  ext["model_is_concrete_d"] = [](CallBase *, std::vector<EX> &a) { return mkConst(a[0]->isConst(), 32); };
  ext["model_format_double"] = [](CallBase *, std::vector<EX> &a) {
    uint64_t buf = cz(a[0]); double v = fval(a[1]); int prec = (int)(int32_t)cz(a[2]), fmt = cz(a[3]); char t[400];
    int n = snprintf(t, sizeof t, fmt == 1 ? "%.*f" : fmt == 2 ? "%.*e" : "%.*g", prec, v);
    std::string e; Obj *o = checkAccess(buf, n + 1, true, e); if (!o) pathViolation("memory", memLabel(e));
    for (int i = 0; i <= n; i++) rawStore(o, buf - o->base + i, mkConst((uint8_t)t[i], 8));
    return mkConst(n, 32); };
  ext["model_strtod"] = [](CallBase *, std::vector<EX> &a) {
    uint64_t p = cz(a[0]), n = cz(a[1]); std::string e, t; Obj *o = checkAccess(p, n ? n : 1, false, e); if (!o) pathViolation("memory", memLabel(e));
    for (uint64_t i = 0; i < n; i++) t += (char)cz(byteAt(o, p - o->base + i));
    return mkF(strtod(t.c_str(), nullptr), 64); };
  ext["sym_fork"] = [](CallBase *, std::vector<EX> &a) { return mkConst(concretize(a[0]), a[0]->w); };
  ext["sym_assume"] = [](CallBase *, std::vector<EX> &a) { assume(mkNot(mkBin(EQ, a[0], mkConst(0, a[0]->w)))); return (EX) nullptr; };
  ext["sym_assert"] = [](CallBase *, std::vector<EX> &a) { assertCond(mkNot(mkBin(EQ, a[0], mkConst(0, a[0]->w))), cstr(cz(a[1]))); return (EX) nullptr; };
  ext["sym_close"] = [](CallBase *, std::vector<EX> &a) { assertClose(a[0], a[1], cstr(cz(a[2]))); return (EX) nullptr; };
  ext["sym_reach"] = [](CallBase *, std::vector<EX> &a) { reachLocal[cstr(cz(a[0]))]++; return (EX) nullptr; };
  ext["sym_tier"] = [](CallBase *, std::vector<EX> &) { return mkConst(tier, 32); };
  ext["sym_symbolic"] = [](CallBase *, std::vector<EX> &) { return mkConst(1, 32); };
  ext["sym_expect_abort"] = [](CallBase *, std::vector<EX> &a) { g_expectAbort = cz(a[0]); return (EX) nullptr; };
}
static bool isRefcount(Instruction *i) {
  for (const DILocation *l = i->getDebugLoc().get(); l; l = l->getInlinedAt()) {
    auto *sp = l->getScope()->getSubprogram();
    if (!sp) continue;
    StringRef n = sp->getLinkageName(); if (n.empty()) n = sp->getName();
    if (n.contains("_Sp_counted") || n.contains("exchange_and_add") || n.contains("__atomic_add") || n.contains("_M_add_ref") || n.contains("_M_release")) return true;
  }
  return false;
}
// to the nearest integer, halves away from zero
static EX roundE(EX x) { EX h = mkF(0.5, x->w); return mkIte(mkFCmp(FLT, x, mkF(0, x->w)), mkFUn(FCEIL, mkFBin(FSUB, x, h)), mkFUn(FFLOOR, mkFBin(FADD, x, h))); }
static std::map<std::pair<const GlobalValue *, int>, Obj *> tls;
static EX intrinsic(Frame &f, IntrinsicInst *ii, bool &handled) {
  handled = true;
  auto A = [&](unsigned i) { return getv(f, ii->getArgOperand(i)); };
  auto sel = [&](EX c, EX a, EX b) { return mkIte(c, a, b); };
  switch (ii->getIntrinsicID()) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::vaend: return nullptr;
  case Intrinsic::vastart: { // every argument in the overflow area, eight bytes each
    uint64_t va = cz(A(0)); Obj *o = newObj(f.varargs.size() * 8 + 8, 2, "stack"); f.allocas.push_back(o); uint64_t q = o->base;
    Type *i32 = Type::getInt32Ty(ii->getContext()), *i64 = Type::getInt64Ty(ii->getContext());
    for (EX v : f.varargs) { if (v->op == AGG) internalError("aggregate passed through ..."); if (v->isF) memStore(mkConst(q, 64), v, v->w == 32 ? Type::getFloatTy(ii->getContext()) : Type::getDoubleTy(ii->getContext())); else memStore(mkConst(q, 64), mkZext(v, 64), i64); q += 8; }
    memStore(mkConst(va, 64), mkConst(48, 32), i32); memStore(mkConst(va + 4, 64), mkConst(176, 32), i32); memStore(mkConst(va + 8, 64), mkConst(o->base, 64), i64); memStore(mkConst(va + 16, 64), mkConst(0, 64), i64); return nullptr;
  }
  case Intrinsic::vacopy: memCopy(cz(A(0)), cz(A(1)), 24); return nullptr;
  case Intrinsic::stacksave: case Intrinsic::invariant_start: return mkConst(0, 64);
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memCopy(cz(A(0)), cz(A(1)), cz(A(2))); return nullptr;
  case Intrinsic::memset: { std::vector<EX> a{A(0), A(1), A(2)}; ext["memset"](ii, a); return nullptr; }
  case Intrinsic::umax: return sel(mkBin(ULT, A(0), A(1)), A(1), A(0)); case Intrinsic::umin: return sel(mkBin(ULT, A(0), A(1)), A(0), A(1));
  case Intrinsic::smax: return sel(mkBin(SLT, A(0), A(1)), A(1), A(0)); case Intrinsic::smin: return sel(mkBin(SLT, A(0), A(1)), A(0), A(1));
  case Intrinsic::abs: return sel(mkBin(SLT, A(0), mkConst(0, A(0)->w)), mkBin(SUB, mkConst(0, A(0)->w), A(0)), A(0));
  case Intrinsic::fabs: return mkFUn(FABS, A(0)); case Intrinsic::ceil: return mkFUn(FCEIL, A(0)); case Intrinsic::floor: return mkFUn(FFLOOR, A(0)); case Intrinsic::trunc: return mkFUn(FTRUNCI, A(0)); case Intrinsic::rint: case Intrinsic::nearbyint: return mkFUn(FROUNDI, A(0));
  case Intrinsic::sqrt: return mkFUn(FSQRT, A(0)); case Intrinsic::exp: return mkUF(UF_EXP, A(0)); case Intrinsic::exp2: return mkUF(UF_EXP2, A(0)); case Intrinsic::log2: return mkUF(UF_LOG2, A(0)); case Intrinsic::log: return mkUF(UF_LOG, A(0)); case Intrinsic::log10: return mkUF(UF_LOG10, A(0)); case Intrinsic::pow: return mkUF(UF_POW, A(0), A(1));
  case Intrinsic::powi: return mkUF(UF_POW, A(0), mkCvt(SITOFP, A(1), true, A(0)->w));
  case Intrinsic::copysign: { EX neg = g_fp == FpMode::Real ? mkFCmp(FLT, A(1), mkF(0, A(1)->w)) : mkBin(SLT, mkCvt(BITSOFF, A(1), false, A(1)->w), mkConst(0, A(1)->w)); EX m = mkFUn(FABS, A(0)); return mkIte(neg, mkFUn(FNEG, m), m); }
  case Intrinsic::round: return roundE(A(0)); case Intrinsic::lround: case Intrinsic::llround: return mkCvt(FPTOSI, roundE(A(0)), false, bw(ii->getType()));
  case Intrinsic::lrint: case Intrinsic::llrint: return mkCvt(FPTOSI, mkFUn(FROUNDI, A(0)), false, bw(ii->getType()));
  case Intrinsic::fma: if (g_fp != FpMode::Real) { handled = false; return nullptr; } return mkFBin(FADD, mkFBin(FMUL, A(0), A(1)), A(2));
  case Intrinsic::fmuladd: return mkFBin(FADD, mkFBin(FMUL, A(0), A(1)), A(2));
  case Intrinsic::maxnum: { std::vector<EX> a{A(0), A(1)}; return ext["fmax"](ii, a); }
  case Intrinsic::minnum: { std::vector<EX> a{A(0), A(1)}; return ext["fmin"](ii, a); }
  case Intrinsic::uadd_with_overflow: { EX s = mkBin(ADD, A(0), A(1)); return mkAgg({s, mkBin(ULT, s, A(0))}); }
  case Intrinsic::usub_with_overflow: return mkAgg({mkBin(SUB, A(0), A(1)), mkBin(ULT, A(0), A(1))});
  case Intrinsic::umul_with_overflow: {
    EX p = mkBin(MUL, A(0), A(1)); if (A(0)->isConst() && A(1)->isConst()) { unsigned __int128 x = (unsigned __int128)A(0)->c * A(1)->c; return mkAgg({p, mkConst(A(0)->w >= 64 ? (x >> 64) != 0 : (uint64_t)(x >> A(0)->w) != 0, 1)}); }
    EX ov = mkNot(mkBin(OR, mkBin(EQ, A(1), mkConst(0, A(1)->w)), mkBin(EQ, mkBin(UDIV, p, A(1)), A(0)))); return mkAgg({p, ov}); }
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    unsigned w = A(0)->w; if (w > 32) { handled = false; return nullptr; }
    Op op = ii->getIntrinsicID() == Intrinsic::sadd_with_overflow ? ADD : ii->getIntrinsicID() == Intrinsic::ssub_with_overflow ? SUB : MUL;
    EX wide = mkBin(op, mkSext(A(0), 2 * w), mkSext(A(1), 2 * w)); EX p = mkExtract(wide, 0, w); return mkAgg({p, mkNot(mkBin(EQ, mkSext(p, 2 * w), wide))}); }
  case Intrinsic::usub_sat: return mkIte(mkBin(ULT, A(0), A(1)), mkConst(0, A(0)->w), mkBin(SUB, A(0), A(1)));
  case Intrinsic::uadd_sat: { EX s = mkBin(ADD, A(0), A(1)); return mkIte(mkBin(ULT, s, A(0)), mkConst(~0ull, s->w), s); }
  case Intrinsic::bswap: { EX a = A(0), r = mkExtract(a, 0, 8); for (unsigned i = 8; i < a->w; i += 8) r = mkConcat(r, mkExtract(a, i, 8)); return r; }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    EX a = A(0), b = A(1), s = A(2); unsigned w = a->w; EX sh = mkBin(UREM, s, mkConst(w, w)); EX inv = mkBin(SUB, mkConst(w, w), sh);
    if (ii->getIntrinsicID() == Intrinsic::fshl) return mkBin(OR, mkBin(SHL, a, sh), mkBin(LSHR, b, inv));
    return mkBin(OR, mkBin(LSHR, b, sh), mkBin(SHL, a, inv)); }
  case Intrinsic::ctlz: { EX a = A(0); EX r = mkConst(a->w, a->w); for (unsigned i = 0; i < a->w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(a->w - 1 - i, a->w), r); return r; }
  case Intrinsic::cttz: { EX a = A(0); EX r = mkConst(a->w, a->w); for (int i = a->w - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, 1), mkConst(i, a->w), r); return r; }
  case Intrinsic::ctpop: { EX a = A(0); EX r = mkConst(0, a->w); for (unsigned i = 0; i < a->w; i++) r = mkBin(ADD, r, mkZext(mkExtract(a, i, 1), a->w)); return r; }
  case Intrinsic::objectsize: return mkConst(~0ull, bw(ii->getType()));
  case Intrinsic::is_constant: return mkFalse();
  case Intrinsic::expect: return A(0);
  case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return A(0);
  case Intrinsic::eh_typeid_for: return mkConst(tiId(cz(A(0))), 32);
  case Intrinsic::trap: pathViolation("abort", "trap");
  case Intrinsic::threadlocal_address: {
    auto *g = dyn_cast<GlobalVariable>(ii->getArgOperand(0)); int id = threads[cur].id; if (!g || id == 0) return A(0);
    Obj *&o = tls[{g, id}]; if (!o) { o = newObj(DL->getTypeAllocSize(g->getValueType()), 0, g->getName().str()); if (g->hasInitializer()) initMem(o, 0, g->getInitializer()); }
    return mkConst(o->base, 64); }
  default: handled = false; return nullptr;
  }
}
static void doCall(Frame &f, CallBase *cb) {
  if (auto *ii = dyn_cast<IntrinsicInst>(cb)) {
    bool h; EX r = intrinsic(f, ii, h);
    if (!h) { internalError("intrinsic " + ii->getCalledFunction()->getName().str()); }
    Frame &g = threads[cur].st.back();
    if (!cb->getType()->isVoidTy()) setv(g, cb, r);
    if (auto *inv = dyn_cast<InvokeInst>(cb)) jumpTo(g, inv->getNormalDest());
    return;
  }
  if (cb->isInlineAsm()) { // empty asm barriers only
    if (!cb->getType()->isVoidTy()) internalError("inline asm");
    return;
  }
  std::vector<EX> args;
  for (auto &a : cb->args()) args.push_back(getv(f, a));
  Function *fn = cb->getCalledFunction();
  if (!fn) {
    Value *cv = cb->getCalledOperand()->stripPointerCasts();
    if (auto *g = dyn_cast<Function>(cv)) fn = g;
    else if (auto *ga = dyn_cast<GlobalAlias>(cv)) fn = dyn_cast<Function>(ga->getAliaseeObject());
    else {
      EX p = getv(f, cb->getCalledOperand());
      uint64_t a = p->isConst() ? p->c : concretize(p);
      Obj *o = objAt(a);
      if (!o || o->kind != 3 || o->base != a) pathViolation("memory", memLabel("call through a null or wild function pointer"));
      fn = o->fn;
    }
  }
  auto it = ext.find(fn->getName().str());
  if (it != ext.end()) {
    g_blocked = g_noret = false;
    size_t depth = threads[cur].st.size(); int c0 = cur;
    EX r = it->second(cb, args);
    if (g_blocked) { Frame &g = threads[c0].st.back(); --g.it; reschedule(); return; }
    if (g_noret) return;
    if (threads[cur].st.size() != depth) { // ext pushed a frame; result set on the caller, then run it
      Frame &g = threads[cur].st[depth - 1];
      if (!cb->getType()->isVoidTy()) setv(g, cb, r);
      if (auto *inv = dyn_cast<InvokeInst>(cb)) jumpTo(g, inv->getNormalDest());
      return;
    }
    Frame &g = threads[cur].st.back();
    if (!cb->getType()->isVoidTy()) setv(g, cb, r);
    if (auto *inv = dyn_cast<InvokeInst>(cb)) jumpTo(g, inv->getNormalDest());
    return;
  }
  if (fn->isDeclaration()) internalError("call to unmodelled function " + demangle(fn->getName().str()) + " [" + fn->getName().str() + "]");
  pushCall(fn, args, cb);
}
static bool atomicSched(Instruction &i) {
  // scheduling point before an atomic access whose outcome can be observed
  if (!mt) return false;
  Thread &t = threads[cur];
  if (t.atSched) { t.atSched = false; return false; }
  if (isRefcount(&i)) return false;
  if (isa<AtomicRMWInst>(i) && i.use_empty()) return false;
  t.atSched = true;
  --threads[cur].st.back().it;
  reschedule();
  return true;
}
static void atomicSync(uint64_t a, bool acq = true, bool rel = true) {
  if (!mt) return;
  VC &v = atomicVC[a];
  if (acq) joinVC(threads[cur].vc, v);
  if (rel) { joinVC(v, threads[cur].vc); threads[cur].vc[threads[cur].slot]++; }
}
// what an atomic access orders: the last owner of a shared pointer comes after the others, nothing else about reference counts does
static bool acquires(Instruction &I, AtomicOrdering o, EX old) {
  if (!isAcquireOrStronger(o)) return false;
  if (isa<AtomicRMWInst>(I) && I.use_empty()) return false;
  if (!isRefcount(&I) || !old->isConst()) return true;
  return isa<LoadInst>(I) && old->w == 64 ? old->c == 0x100000001ull : old->c == 1;
}
static void step() {
  Thread &T = threads[cur];
  Frame &f = T.st.back();
  Instruction &I = *f.it++;
  localInstrs++;
  if (++steps > stepLimit) pathViolation("hang", "no termination within the step bound");
  if ((steps & 4095) == 0) { if (now() > deadline) { SH->incomplete |= 1; finish(0); } if (SH->stop) { SH->incomplete |= 2; finish(0); } }
  switch (I.getOpcode()) {
  case Instruction::Ret: {
    auto &R = cast<ReturnInst>(I); EX v = R.getReturnValue() ? getv(f, R.getReturnValue()) : nullptr;
    returnTo(v);
    if (threads[cur].st.empty()) threadDone();
    return;
  }
  case Instruction::Br: {
    auto &B = cast<BranchInst>(I);
    if (B.isUnconditional()) { jumpTo(f, B.getSuccessor(0)); return; }
    bool c = decide(getv(f, B.getCondition()));
    jumpTo(f, B.getSuccessor(c ? 0 : 1)); return;
  }
  case Instruction::Switch: {
    auto &Sw = cast<SwitchInst>(I); EX v = getv(f, Sw.getCondition());
    for (auto &c : Sw.cases()) if (decide(mkBin(EQ, v, constant(c.getCaseValue())))) { jumpTo(f, c.getCaseSuccessor()); return; }
    jumpTo(f, Sw.getDefaultDest()); return;
  }
  case Instruction::Unreachable: pathViolation("abort", "unreachable code reached");
  case Instruction::Call: case Instruction::Invoke: doCall(f, &cast<CallBase>(I)); return;
  case Instruction::LandingPad: return; // value already set by unwind
  case Instruction::Resume: { unwind(T.cur); return; }
  case Instruction::Alloca: {
    auto &A = cast<AllocaInst>(I); uint64_t n = DL->getTypeAllocSize(A.getAllocatedType()); if (A.isArrayAllocation()) n *= cz(getv(f, A.getArraySize()));
    Obj *o = newObj(n, 2, "stack"); f.allocas.push_back(o); setv(f, &I, mkConst(o->base, 64)); return;
  }
  case Instruction::Load: {
    auto &L = cast<LoadInst>(I);
    if (L.isAtomic()) { if (atomicSched(I)) return; EX p = getv(f, L.getPointerOperand()); uint64_t a = cz(p); bool m = mt; mt = false; EX v = memLoad(mkConst(a, 64), L.getType()); mt = m; if (acquires(I, L.getOrdering(), v)) atomicSync(a, true, false); setv(threads[cur].st.back(), &I, v); return; }
    setv(f, &I, memLoad(getv(f, L.getPointerOperand()), L.getType())); return;
  }
  case Instruction::Store: {
    auto &St = cast<StoreInst>(I);
    if (St.isAtomic()) { if (atomicSched(I)) return; uint64_t a = cz(getv(f, St.getPointerOperand())); if (isReleaseOrStronger(St.getOrdering())) atomicSync(a, false, true); bool m = mt; mt = false; memStore(mkConst(a, 64), getv(f, St.getValueOperand()), St.getValueOperand()->getType()); mt = m; return; }
    memStore(getv(f, St.getPointerOperand()), getv(f, St.getValueOperand()), St.getValueOperand()->getType()); return;
  }
  case Instruction::AtomicRMW: {
    if (atomicSched(I)) return;
    auto &R = cast<AtomicRMWInst>(I); uint64_t a = cz(getv(f, R.getPointerOperand())); Type *t = R.getValOperand()->getType();
    bool m = mt; mt = false;
    EX p = mkConst(a, 64), old = memLoad(p, t); mt = m; atomicSync(a, acquires(I, R.getOrdering(), old), isReleaseOrStronger(R.getOrdering())); mt = false;
    EX v = getv(f, R.getValOperand()), nv = nullptr;
    switch (R.getOperation()) { case AtomicRMWInst::Add: nv = mkBin(ADD, old, v); break; case AtomicRMWInst::Sub: nv = mkBin(SUB, old, v); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::And: nv = mkBin(AND, old, v); break; case AtomicRMWInst::Or: nv = mkBin(OR, old, v); break; case AtomicRMWInst::Xor: nv = mkBin(XOR, old, v); break; case AtomicRMWInst::FAdd: nv = mkFBin(FADD, old, v); break; default: internalError("atomicrmw"); }
    memStore(p, nv, t); mt = m; setv(f, &I, old); return;
  }
  case Instruction::AtomicCmpXchg: {
    if (atomicSched(I)) return;
    auto &X = cast<AtomicCmpXchgInst>(I); uint64_t a = cz(getv(f, X.getPointerOperand())); Type *t = X.getNewValOperand()->getType();
    atomicSync(a, isAcquireOrStronger(X.getSuccessOrdering()), isReleaseOrStronger(X.getSuccessOrdering())); bool m = mt; mt = false; EX p = mkConst(a, 64), old = memLoad(p, t); EX eq = mkBin(EQ, old, getv(f, X.getCompareOperand()));
    memStore(p, mkIte(eq, getv(f, X.getNewValOperand()), old), t); mt = m; setv(f, &I, mkAgg({old, eq})); return;
  }
  case Instruction::Fence: return;
  case Instruction::GetElementPtr: {
    auto &G = cast<GetElementPtrInst>(I); EX p = getv(f, G.getPointerOperand());
    if (p->op == AGG) internalError("vector gep");
    uint64_t cOff = 0; EX sOff = nullptr;
    for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
      if (auto *st = gi.getStructTypeOrNull()) { cOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
      uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType()); EX ix = getv(f, gi.getOperand());
      if (ix->op == AGG) internalError("vector gep");
      if (ix->w < 64) ix = mkSext(ix, 64);
      if (ix->isConst()) cOff += ix->c * sz; else { EX o = mkBin(MUL, ix, mkConst(sz, 64)); sOff = sOff ? mkBin(ADD, sOff, o) : o; }
    }
    if (sOff) p = mkBin(ADD, p, sOff);
    setv(f, &I, mkBin(ADD, p, mkConst(cOff, 64))); return;
  }
  case Instruction::ICmp: setv(f, &I, icmp(cast<CmpInst>(I).getPredicate(), getv(f, I.getOperand(0)), getv(f, I.getOperand(1)))); return;
  case Instruction::FCmp: setv(f, &I, fcmp(cast<CmpInst>(I).getPredicate(), getv(f, I.getOperand(0)), getv(f, I.getOperand(1)))); return;
  case Instruction::Select: {
    EX c = getv(f, I.getOperand(0)), a = getv(f, I.getOperand(1)), b = getv(f, I.getOperand(2));
    if (c->op == AGG) { std::vector<EX> v; for (size_t i = 0; i < c->agg->size(); i++) v.push_back(mkIte((*c->agg)[i], (*a->agg)[i], (*b->agg)[i])); setv(f, &I, mkAgg(v)); return; }
    auto k = known.find(c); if (k != known.end()) { setv(f, &I, k->second ? a : b); return; }
    setv(f, &I, mkIte(c, a, b)); return;
  }
  case Instruction::ExtractValue: { EX v = getv(f, I.getOperand(0)); for (unsigned i : cast<ExtractValueInst>(I).indices()) v = (*v->agg)[i]; setv(f, &I, v); return; }
  case Instruction::InsertValue: {
    auto &V = cast<InsertValueInst>(I); EX agg = getv(f, I.getOperand(0)), x = getv(f, I.getOperand(1));
    std::function<EX(EX, unsigned)> ins = [&](EX a, unsigned d) -> EX { std::vector<EX> v = *a->agg; unsigned ix = V.getIndices()[d]; v[ix] = d + 1 == V.getNumIndices() ? x : ins(v[ix], d + 1); return mkAgg(v); };
    setv(f, &I, ins(agg, 0)); return;
  }
  case Instruction::ExtractElement: { EX v = getv(f, I.getOperand(0)); setv(f, &I, (*v->agg)[cz(getv(f, I.getOperand(1)))]); return; }
  case Instruction::InsertElement: { std::vector<EX> v = *getv(f, I.getOperand(0))->agg; v[cz(getv(f, I.getOperand(2)))] = getv(f, I.getOperand(1)); setv(f, &I, mkAgg(v)); return; }
  case Instruction::ShuffleVector: { auto &SV = cast<ShuffleVectorInst>(I); auto &a = *getv(f, I.getOperand(0))->agg; auto &b = *getv(f, I.getOperand(1))->agg; std::vector<EX> v; for (int m : SV.getShuffleMask()) v.push_back(m < 0 ? a[0] : m < (int)a.size() ? a[m] : b[m - a.size()]); setv(f, &I, mkAgg(v)); return; }
  case Instruction::FNeg: { EX a = getv(f, I.getOperand(0)); if (a->op == AGG) { std::vector<EX> v; for (EX x : *a->agg) v.push_back(mkFUn(FNEG, x)); setv(f, &I, mkAgg(v)); return; } setv(f, &I, mkFUn(FNEG, a)); return; }
  case Instruction::Freeze: setv(f, &I, getv(f, I.getOperand(0))); return;
  case Instruction::PHI: internalError("phi reached"); 
  default:
    if (I.isBinaryOp()) { EX r = binop(I.getOpcode(), getv(f, I.getOperand(0)), getv(f, I.getOperand(1))); setv(threads[cur].st.back(), &I, r); return; }
    if (I.isCast()) { setv(f, &I, evalCast(I.getOpcode(), getv(f, I.getOperand(0)), I.getOperand(0)->getType(), I.getType())); return; }
    internalError(std::string("instruction ") + I.getOpcodeName());
  }
}
static void runMain(Function *fn) {
  cur = 0;
  threads[0].done = false;
  pushCall(fn, {}, nullptr);
  while (!threads[0].st.empty()) step();
  threads[0].done = false;
}
int main(int argc, char **argv) {
  std::string bc, entry; int jobs = 8; double tmo = 600;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--fp") { std::string v = nx(); g_fp = v == "real" ? FpMode::Real : FpMode::Ieee; g_abs = v == "abs"; }
    else if (a == "--out") outDir = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--timeout") tmo = atof(nx().c_str());
    else if (a == "--tier") tier = atoi(nx().c_str()); else if (a == "--samples") maxSamples = atoi(nx().c_str()); else if (a == "--steps") stepLimit = atol(nx().c_str());
    else if (a == "--rlimit") rlimit = atol(nx().c_str()); else if (a == "--no-halt") haltOnViol = false; else if (a == "-v") verbose = true;
    else if (bc.empty()) bc = a; else entry = a;
  }
  (void)dumpQueries; (void)inHarness;
  mkdir(outDir.c_str(), 0755);
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)SH, 0, sizeof(Shared)); SH->tokens = jobs - 1;
  double t0 = now(); deadline = t0 + tmo;
  pid_t root = fork();
  if (root == 0) {
    setpgid(0, 0);
    LLVMContext ctx; SMDiagnostic err;
    Mod = parseIRFile(bc, err, ctx);
    if (!Mod) internalError("cannot read " + bc);
    DL = &Mod->getDataLayout();
    initZ3();
    S = Z3_mk_simple_solver(g_ctx); Z3_solver_inc_ref(g_ctx, S);
    Z3_params p = Z3_mk_params(g_ctx); Z3_params_inc_ref(g_ctx, p);
    Z3_params_set_uint(g_ctx, p, Z3_mk_string_symbol(g_ctx, "rlimit"), rlimit);
    Z3_params_set_uint(g_ctx, p, Z3_mk_string_symbol(g_ctx, "timeout"), 40000);
    Z3_solver_set_params(g_ctx, S, p);
    threads.emplace_back(); threads[0].id = 0; threads[0].vc[0] = 1;
    initExt();
    for (auto &g : Mod->globals()) addrOf(&g);
    for (auto &g : Mod->globals()) if (g.hasInitializer()) { Obj *o = gobj[&g]; if (g.getName() == "llvm.global_ctors" || g.getName() == "llvm.used" || g.getName() == "llvm.compiler.used") continue; initMem(o, 0, g.getInitializer()); o->ro = g.isConstant(); }
    if (auto *gc = Mod->getGlobalVariable("llvm.global_ctors"))
      if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto &op : ca->operands()) if (auto *fn = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts())) runMain(fn);
    Function *fn = Mod->getFunction(entry);
    if (!fn) internalError("no entry " + entry);
    steps = 0;
    runMain(fn);
    pathEnd();
  }
  setpgid(root, root);
  int st = 0; bool killed = false;
  for (;;) { // paths stop themselves at the deadline; a solver call that overruns it is cut off here
    pid_t w = waitpid(root, &st, WNOHANG);
    if (w == root) break;
    if (now() > deadline + 15) { kill(-root, SIGKILL); waitpid(root, &st, 0); SH->incomplete |= 1; killed = true; break; }
    usleep(now() - t0 < 2 ? 2000 : 20000);
  }
  kill(-root, SIGKILL);
  if (!killed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->errors++; if (!SH->err[0]) snprintf(SH->err, sizeof SH->err, "explorer ended abnormally (status %d)", st); }
  FILE *f = fopen((outDir + "/stats.json").c_str(), "w");
  fprintf(f, "{\"entry\":\"%s\",\"fp\":\"%s\",\"paths\":%ld,\"forks\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"instructions\":%ld,\"asserts\":%ld,\"assert_queries\":%ld,\"memory_checks\":%ld,\"schedule_points\":%ld,\"violations\":%ld,\"solver_s\":%.3f,\"wall_s\":%.3f,\"incomplete\":%d,\"errors\":%d,\"error\":\"%s\",\"reach\":{",
          entry.c_str(), g_fp == FpMode::Real ? "real" : "ieee", SH->paths.load(), SH->forks.load(), SH->queries.load(), SH->satq.load(), SH->unsatq.load(), SH->unknownq.load(), SH->instrs.load(), SH->asserts.load(), SH->assertQueries.load(), SH->memchecks.load(), SH->schedPoints.load(), SH->violations.load(), SH->solverUs / 1e6, now() - t0, SH->incomplete.load(), SH->errors.load(), jsonEsc(SH->err).c_str());
  for (int i = 0; i < SH->nreach && i < 128; i++) fprintf(f, "%s\"%s\":%ld", i ? "," : "", SH->reach[i].name, SH->reach[i].n.load());
  fprintf(f, "}}\n"); fclose(f);
  return 0;
}
