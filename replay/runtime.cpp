// Native side of the harness interface: runs a harness entry on concrete values
// (a solver counterexample or a sampled path) against the real library build.
//   replay ENTRY VALUES.txt SCRATCHDIR TIER [SCHED.txt]
// VALUES.txt: one "name value" per line, in creation order.
// Exit status: 0 held, 3 assertion failed, 4 assumption not met, 5 expected abort.
#include <dlfcn.h>
#include <fcntl.h>
#include <fenv.h>
#include <pthread.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "sym.h"
namespace {
struct Val { std::string name, v; };
std::deque<Val> vals;
std::deque<long> rands;
std::vector<int> sched;
std::atomic<size_t> schedPos{0};
std::string scratch = ".";
int tier_ = 0, expectAbort = 0, failed = 0;
std::set<std::string> reached;
bool strict = true;
std::string next(const char *name) {
  for (size_t i = 0; i < vals.size(); i++) if (vals[i].name == name) { std::string s = vals[i].v; vals.erase(vals.begin() + i); return s; }
  printf("REPLAY-NOVALUE %s\n", name); return "0";
}
int outSaved = -1; std::string outText;
void restoreOut() { if (outSaved >= 0) { fflush(stdout); dup2(outSaved, 1); close(outSaved); outSaved = -1; } }
void done(int c) {
  restoreOut();
  for (auto &r : reached) printf("REPLAY-REACH %s\n", r.c_str());
  fflush(stdout);
  _exit(c);
}
void onAbort(int) {
  if (expectAbort) { const char m[] = "REPLAY-EXPECTED-ABORT\n"; ssize_t r = write(1, m, sizeof m - 1); (void)r; for (auto &s : reached) { std::string t = "REPLAY-REACH " + s + "\n"; r = write(1, t.data(), t.size()); } _exit(0); }
  signal(SIGABRT, SIG_DFL); raise(SIGABRT);
}
thread_local int myId = 0;
std::atomic<int> nextId{1};
bool useSched = false;
}
#ifdef _GLIBCXX_ASSERTIONS
// misuse of a container is a memory error, never a deliberate rejection
namespace std { void __glibcxx_assert_fail(const char *, int, const char *, const char *c) noexcept { restoreOut(); printf("runtime error: container used outside its size (%s)\n", c ? c : ""); fflush(stdout); _exit(77); } }
#endif
extern "C" {
int sym_int(const char *n, int lo, int hi) { long v = strtol(next(n).c_str(), nullptr, 10); if (v < lo || v > hi) { v = v < lo ? lo : hi; } return (int)v; }
unsigned char sym_byte(const char *n) { return (unsigned char)strtol(next(n).c_str(), nullptr, 10); }
unsigned long sym_u64(const char *n) { return (unsigned long)strtoll(next(n).c_str(), nullptr, 10); }
bool sym_bool(const char *n) { return strtol(next(n).c_str(), nullptr, 10) & 1; }
double sym_double(const char *n) { return strtod(next(n).c_str(), nullptr); }
float sym_float(const char *n) { return (float)strtod(next(n).c_str(), nullptr); }
double sym_double_in(const char *n, double lo, double hi) { double v = sym_double(n); return v < lo ? lo : v > hi ? hi : v; }
float sym_float_in(const char *n, float lo, float hi) { float v = sym_float(n); return v < lo ? lo : v > hi ? hi : v; }
int sym_fork(int v) { return v; }
void sym_assume(int c) { if (!c) { printf("REPLAY-ASSUME\n"); done(4); } }
void sym_assert(int c, const char *l) { if (!c) { restoreOut(); printf("REPLAY-VIOLATION %s\n", l); failed = 1; done(3); } }
void sym_close(double a, double b, const char *l) {
  double s = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
  if ((std::isnan(a) && std::isnan(b)) || a == b) return;
  if (!(std::fabs(a - b) <= 2e-6 * s)) { printf("REPLAY-VALUES %.17g %.17g\n", a, b); sym_assert(0, l); }
}
void sym_reach(const char *l) { reached.insert(l); }
int sym_tier() { return tier_; }
int sym_symbolic() { return 0; }
void sym_expect_abort(int on) { expectAbort = on; }
const char *vf_path(const char *n) { static std::map<std::string, std::string> m; auto &s = m[n]; s = scratch + "/" + n; return s.c_str(); }
void vf_put(const char *p, const char *d, long n) { FILE *f = fopen(p, "wb"); if (f) { fwrite(d, 1, n, f); fclose(f); } }
long vf_size(const char *p) { struct stat st; return stat(p, &st) ? -1 : (long)st.st_size; }
void vf_get(const char *p, char *d) { FILE *f = fopen(p, "rb"); if (f) { size_t r = fread(d, 1, vf_size(p), f); (void)r; fclose(f); } }
void vf_capture(int on) {
  fflush(stdout); std::string p = scratch + "/captured-output";
  if (on) { outText.clear(); outSaved = dup(1); int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); close(fd); }
  else if (outSaved >= 0) { restoreOut(); long n = vf_size(p.c_str()); if (n > 0) { outText.resize(n); vf_get(p.c_str(), &outText[0]); } }
}
long vf_out_size() { return (long)outText.size(); }
void vf_out_get(char *d) { memcpy(d, outText.data(), outText.size()); }
// the device is full after n more bytes: a file size limit has the same effect on one file
void vf_budget(long n) { signal(SIGXFSZ, SIG_IGN); struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = n < 0 ? l.rlim_max : (rlim_t)n; setrlimit(RLIMIT_FSIZE, &l); }
void sym_rand(int) {}
void sym_sched(int) {}
int rand() { static std::atomic<unsigned long> n{0}; if (rands.empty()) return (12345ul + 1048573ul * n++) & 0x7fffffff; long v = rands.front(); rands.pop_front(); return (int)v; }
#ifdef REPLAY_SCHED
// follow the recorded order of mutex acquisitions
int pthread_mutex_lock(pthread_mutex_t *m) {
  typedef int (*F)(pthread_mutex_t *);
  static F real = (F)dlsym(RTLD_NEXT, "pthread_mutex_lock");
  if (useSched && (myId || nextId > 1)) {
    for (int i = 0; i < 20000; i++) { size_t p = schedPos; if (p >= sched.size() || sched[p] == myId) break; usleep(100); }
    int r = real(m); schedPos++; return r;
  }
  return real(m);
}
struct Start { void *(*f)(void *); void *a; int id; };
static void *tramp(void *p) { Start s = *(Start *)p; delete (Start *)p; myId = s.id; return s.f(s.a); }
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
  typedef int (*F)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  static F real = (F)dlsym(RTLD_NEXT, "pthread_create");
  return real(t, at, tramp, new Start{f, a, nextId++});
}
#endif
}
int main(int argc, char **argv) {
  if (argc < 5) return 9;
  FILE *f = fopen(argv[2], "r"); char n[256], v[256];
  if (!f) return 9;
  while (fscanf(f, "%255s %255s", n, v) == 2) { if (!strcmp(n, "rand")) rands.push_back(atol(v)); else vals.push_back({n, v}); }
  fclose(f);
  scratch = argv[3]; tier_ = atoi(argv[4]);
  if (argc > 5 && (f = fopen(argv[5], "r"))) { int t; while (fscanf(f, "%d", &t) == 1) sched.push_back(t); fclose(f); useSched = true; }
  if (getenv("REPLAY_FPE")) feenableexcept(FE_DIVBYZERO | FE_INVALID);
  signal(SIGABRT, onAbort);
  void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!e) { printf("no entry %s\n", argv[1]); return 9; }
  e();
  done(0);
}
