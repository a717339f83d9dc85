// Bodies for the library functions that live in libstdc++.so.
#include "vs_streams.h"
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <optional>
#include <cstdlib>
#include <cstdarg>
#include <cstdio>
namespace vs {
File *g_files;
File *findFile(const std::string &n) { for (File *f = g_files; f; f = f->next) if (f->name == n) return f; return nullptr; }
File *makeFile(const std::string &n) { File *f = new File; f->name = n; f->next = g_files; f->buf.isFile = true; g_files = f; return f; }
bool canCreate(const std::string &n) { return !n.empty() && n.find("no_such_dir") == std::string::npos; }
static long g_budget = -1;
}
extern "C" int model_write_fault(long n) { if (vs::g_budget < 0) return 1; if (vs::g_budget < n) { vs::g_budget = 0; return 0; } vs::g_budget -= n; return 1; }
// harness-side file interface
extern "C" const char *vf_path(const char *n) { return n; }
extern "C" void vf_put(const char *n, const char *d, long len) { vs::File *f = vs::findFile(n); if (!f) f = vs::makeFile(n); f->buf.n = 0; f->buf.append(d, len); }
extern "C" long vf_size(const char *n) { vs::File *f = vs::findFile(n); return f ? (long)f->buf.n : -1; }
extern "C" void vf_get(const char *n, char *d) { vs::File *f = vs::findFile(n); if (f && f->buf.n) memcpy(d, f->buf.d, f->buf.n); }
extern "C" void vf_budget(long n) { vs::g_budget = n; }
namespace std {
// standard streams: output is discarded, input is empty
istream cin; ostream cout; ostream cerr; ostream clog;
namespace { struct vs_init { vs_init() { cin.vsdiscard(); cout.vsdiscard(); cerr.vsdiscard(); clog.vsdiscard(); } } vs_init_; }
template <> basic_istream<char> &operator>>(basic_istream<char> &i, basic_string<char> &s) {
  s.clear();
  if (!i.vssentry(false)) return i;
  bool any = false; size_t p = (size_t)(streamoff)i.tellg(); long n = 0, w = i.width();
  while (i.vsat(p) && !(i.vslen(p) == 1 && basic_istream<char>::vsspace(i.vschar(p))) && (w <= 0 || n < w)) { size_t l = i.vslen(p); for (size_t k = 0; k < l; k++) s.push_back(i.vschar(p + k)); p += l; any = true; n++; }
  i.seekg((streamoff)p); i.width(0);
  unsigned st = 0; if (!i.vsat(p)) st |= ios_base::eofbit; if (!any) st |= ios_base::failbit; if (st) i.setstate(st);
  return i;
}
template <> basic_istream<char> &getline(basic_istream<char> &i, basic_string<char> &s, char d) {
  s.clear();
  if (!i.vssentry(true)) return i;
  size_t p = (size_t)(streamoff)i.tellg(); bool any = false; unsigned st = 0;
  for (;;) {
    if (!i.vsat(p)) { st |= ios_base::eofbit; break; }
    size_t l = i.vslen(p);
    if (l == 1 && i.vschar(p) == d) { p++; any = true; break; }
    for (size_t k = 0; k < l; k++) s.push_back(i.vschar(p + k));
    p += l; any = true;
  }
  i.seekg((streamoff)p);
  if (!any) st |= ios_base::failbit;
  if (st) i.setstate(st);
  return i;
}
// exceptions
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
// __cow_string: a NUL-terminated private copy
static const char *vs_dup(const char *s, size_t n) { char *p = (char *)::operator new(n + 1); if (n) memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(vs_dup("", 0)) {}
__cow_string::__cow_string(const std::string &s) : _M_p(vs_dup(s.data(), s.size())) {}
__cow_string::__cow_string(const char *s, size_t n) : _M_p(vs_dup(s, n)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(vs_dup(o._M_p, strlen(o._M_p))) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { const char *n = vs_dup(o._M_p, strlen(o._M_p)); ::operator delete((void *)_M_p); _M_p = n; return *this; }
__cow_string::~__cow_string() { ::operator delete((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) { o._M_p = vs_dup("", 0); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { const char *t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
#define EXC(B) \
  B::B(const std::string &s) : VS_BASE(), _M_msg(s) {} \
  B::B(const char *s) : VS_BASE(), _M_msg(s, strlen(s)) {} \
  B::B(B &&o) noexcept : VS_BASE(), _M_msg(std::move(o._M_msg)) {} \
  B &B::operator=(B &&o) noexcept { _M_msg = std::move(o._M_msg); return *this; } \
  B::B(const B &o) noexcept : VS_BASE(), _M_msg(o._M_msg) {} \
  B &B::operator=(const B &o) noexcept { _M_msg = o._M_msg; return *this; } \
  B::~B() noexcept {} \
  const char *B::what() const noexcept { return _M_msg._M_p; }
#define VS_BASE exception
EXC(logic_error)
EXC(runtime_error)
#undef VS_BASE
#define EXC2(D, B) \
  D::D(const std::string &s) : B(s) {} \
  D::D(const char *s) : B(s) {} \
  D::~D() noexcept {}
EXC2(domain_error, logic_error) EXC2(invalid_argument, logic_error) EXC2(length_error, logic_error) EXC2(out_of_range, logic_error)
EXC2(range_error, runtime_error) EXC2(overflow_error, runtime_error) EXC2(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_system_error(int) { throw runtime_error("system error"); }
}
extern "C" void __model_bad_alloc() { throw std::bad_alloc(); }
// std::thread::_State destructor and friends
#include <thread>
std::thread::_State::~_State() {}
// ---- helpers behind std::map/set, std::list, std::unordered_*: functional equivalents (trees are not balanced)
#include <map>
#include <set>
#include <list>
#include <unordered_map>
#include <exception>
#include <condition_variable>
namespace std {
typedef _Rb_tree_node_base NB;
static NB *vs_inc(NB *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  NB *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
static NB *vs_dec(NB *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // header
  if (x->_M_left) { NB *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  NB *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
NB *_Rb_tree_increment(NB *x) throw() { return vs_inc(x); }
const NB *_Rb_tree_increment(const NB *x) throw() { return vs_inc(const_cast<NB *>(x)); }
NB *_Rb_tree_decrement(NB *x) throw() { return vs_dec(x); }
const NB *_Rb_tree_decrement(const NB *x) throw() { return vs_dec(const_cast<NB *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, NB *x, NB *p, NB &h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
NB *_Rb_tree_rebalance_for_erase(NB *const z, NB &h) throw() {
  NB *&root = h._M_parent;
  if (h._M_left == z) h._M_left = vs_inc(z);
  if (h._M_right == z) { NB *d = z->_M_left; if (d) { while (d->_M_right) d = d->_M_right; h._M_right = d; } else h._M_right = z->_M_parent; }
  auto repl = [&](NB *u, NB *v) { if (root == u) root = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if (v) v->_M_parent = u->_M_parent; };
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    NB *y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (!root) { h._M_left = h._M_right = &h; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base &, _List_node_base &) noexcept { __builtin_trap(); }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 13; while (b < n) b = b * 2 + 3; _M_next_resize = b; return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e + i > b) return {true, _M_next_bkt(e + i > 2 * b ? e + i : 2 * b)}; return {false, 0}; }
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char *)p)[i]; return h; }
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
}
extern "C" int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
extern "C" int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
// call_once: the caller's functor is in thread-local storage
namespace std { __thread void *__once_callable; __thread void (*__once_call)(); }
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" int pthread_once(pthread_once_t *c, void (*f)()) { // the control word's address names the lock
  pthread_mutex_t *m = (pthread_mutex_t *)c; pthread_mutex_lock(m);
  if (!*c) { try { f(); } catch (...) { pthread_mutex_unlock(m); throw; } *c = 2; }
  pthread_mutex_unlock(m); return 0;
}
// futures
#include <future>
namespace std {
__future_base::_Result_base::_Result_base() {}
__future_base::_Result_base::~_Result_base() {}
future_error::~future_error() noexcept {}
const char *future_error::what() const noexcept { return "std::future_error"; }
void __throw_future_error(int) { throw runtime_error("future error"); }
}
static thread_local int vs_errno;
extern "C" int *__errno_location() noexcept { return &vs_errno; }
template <class T> static T vs_int(const char *s, char **e, int base) {
  const char *p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
  bool neg = *p == '-'; if (*p == '-' || *p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false, over = false; const unsigned long lim = (T)-1 < 0 ? (neg ? 1ul << 63 : ~0ul >> 1) : ~0ul;
  for (;; p++) { int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99; if (d >= base) break; any = true; if (v > (lim - d) / base) over = true; else v = v * base + d; }
  if (e) *e = (char *)(any ? p : s);
  if (over) { vs_errno = 34; v = lim; return neg && (T)-1 < 0 ? (T)v : (T)v; }
  return neg ? (T)(0 - v) : (T)v;
}
extern "C" long strtol(const char *s, char **e, int b) noexcept { return vs_int<long>(s, e, b); }
extern "C" long long strtoll(const char *s, char **e, int b) noexcept { return vs_int<long>(s, e, b); }
extern "C" unsigned long strtoul(const char *s, char **e, int b) noexcept { return vs_int<unsigned long>(s, e, b); }
extern "C" unsigned long long strtoull(const char *s, char **e, int b) noexcept { return vs_int<unsigned long>(s, e, b); }
// the text of an unknown number stands for that number, rounded as it was printed
static bool vs_istok(const char *p) { return p[0] == 1 && (p[1] == 'd' || p[1] == 'i') && p[12] == 2; }
static double vs_tokval(const char *p) {
  if (p[1] == 'i') { long x; memcpy(&x, p + 4, 8); return (double)x; }
  double x; memcpy(&x, p + 4, 8);
  double r = model_fresh_double(), e = 0.5; int fmt = p[2], pr = p[3]; if (fmt == 0 && pr == 0) pr = 1; if (fmt == 0) pr -= 1;
  for (int i = 0; i < pr; i++) e /= 10;
  double d = r - x; if (d < 0) d = -d; double m = x < 0 ? -x : x;
  if (fmt == 1) model_assume(d <= e); else model_assume((d <= e * m) & ((m == 0) | (d < m)));
  return r;
}
extern "C" int vsnprintf(char *out, size_t cap, const char *f, va_list ap) noexcept {
  size_t n = 0; auto put = [&](char c) { if (n + 1 < cap) out[n] = c; n++; };
  auto field = [&](const char *s, size_t l, int w, bool left, char fill) { size_t pad = w > (int)l ? w - l : 0; if (!left) for (size_t i = 0; i < pad; i++) put(fill); for (size_t i = 0; i < l; i++) put(s[i]); if (left) for (size_t i = 0; i < pad; i++) put(' '); };
  va_list first; va_copy(first, ap);
  for (; *f; f++) {
    if (*f != '%') { put(*f); continue; }
    f++; if (*f >= '1' && *f <= '9') { const char *q = f; int pos = 0; while (*q >= '0' && *q <= '9') pos = pos * 10 + (*q++ - '0'); if (*q == '$') { f = q + 1; va_copy(ap, first); while (--pos > 0) (void)va_arg(ap, int); } } // positional arguments: integers before it
    bool left = false, plus = false, zero = false; for (;; f++) { if (*f == '-') left = true; else if (*f == '+') plus = true; else if (*f == '0') zero = true; else if (*f != ' ' && *f != '#') break; }
    int w = 0, prec = -1; if (*f == '*') { w = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    int lng = 0; while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'h' || *f == 'L') { if (*f != 'h' && *f != 'L') lng = 1; f++; }
    char c = *f, t[400];
    if (c == '%') put('%');
    else if (c == 'c') { t[0] = (char)va_arg(ap, int); field(t, 1, w, left, ' '); }
    else if (c == 's') { const char *q = va_arg(ap, const char *); size_t l = 0; while ((prec < 0 || l < (size_t)prec) && q[l]) l++; field(q, l, w, left, ' '); }
    else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o') {
      bool sg = c == 'd' || c == 'i'; long v = lng ? va_arg(ap, long) : sg ? (long)va_arg(ap, int) : (long)va_arg(ap, unsigned);
      if (!model_is_concrete_l(v)) { t[0] = 1; t[1] = 'i'; t[2] = t[3] = 0; memcpy(t + 4, &v, 8); t[12] = 2; field(t, vs::TOK, 0, left, ' '); continue; }
      unsigned base = c == 'x' || c == 'X' ? 16 : c == 'o' ? 8 : 10; bool neg = sg && v < 0; unsigned long u = neg ? 0ul - (unsigned long)v : (unsigned long)v; int i = 64;
      do { unsigned d = u % base; t[--i] = d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10; u /= base; } while (u);
      while (64 - i < prec) t[--i] = '0'; if (neg) t[--i] = '-'; else if (plus && sg) t[--i] = '+';
      field(t + i, 64 - i, w, left, zero && prec < 0 && !left ? '0' : ' ');
    } else if (c == 'f' || c == 'F' || c == 'e' || c == 'E' || c == 'g' || c == 'G') {
      double v = va_arg(ap, double); if (prec < 0) prec = 6; int fmt = c == 'f' || c == 'F' ? 1 : c == 'e' || c == 'E' ? 2 : 0;
      if (model_is_concrete_d(v)) { int l = model_format_double(t, v, prec, fmt, 0); field(t, l, w, left, zero && !left ? '0' : ' '); }
      else { if (prec > 60) prec = 60; t[0] = 1; t[1] = 'd'; t[2] = fmt; t[3] = prec; memcpy(t + 4, &v, 8); t[12] = 2; field(t, vs::TOK, 0, left, ' '); }
    } else __builtin_trap();
  }
  if (cap) out[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
// standard output: dropped, unless the harness looks at it
static vs::Buf *vs_out; static bool vs_capture;
extern "C" void vf_capture(int on) { if (!vs_out) vs_out = new vs::Buf; if (on) { vs_out->n = 0; std::cout.vsset(vs_out); std::cout.vsdiscard(false); } else std::cout.vsdiscard(true); vs_capture = on; }
extern "C" long vf_out_size() { return vs_out ? (long)vs_out->n : 0; }
extern "C" void vf_out_get(char *d) { if (vs_out && vs_out->n) memcpy(d, vs_out->d, vs_out->n); }
static int vs_emit(const char *s, size_t n) { if (vs_capture) std::cout.write(s, n); return (int)n; }
extern "C" int printf(const char *f, ...) { if (!vs_capture) return 0; char t[1024]; va_list ap; va_start(ap, f); int r = vsnprintf(t, sizeof t, f, ap); va_end(ap); return vs_emit(t, r < (int)sizeof t ? r : sizeof t - 1); }
extern "C" int puts(const char *s) { if (!vs_capture) return 0; vs_emit(s, strlen(s)); return vs_emit("\n", 1); }
extern "C" int putc(int c, FILE *f) { char t = (char)c; if (f == stdout) vs_emit(&t, 1); return c; }
extern "C" int fputc(int c, FILE *f) { char t = (char)c; if (f == stdout) vs_emit(&t, 1); return c; }
extern "C" int fputs(const char *s, FILE *f) { if (vs_capture && f == stdout) vs_emit(s, strlen(s)); return 1; }
extern "C" size_t fwrite(const void *p, size_t n, size_t m, FILE *f) { if (vs_capture && f == stdout) vs_emit((const char *)p, n * m); return m; }
extern "C" int fprintf(FILE *o, const char *f, ...) { if (!vs_capture || o != stdout) return 0; char t[1024]; va_list ap; va_start(ap, f); int r = vsnprintf(t, sizeof t, f, ap); va_end(ap); return vs_emit(t, r < (int)sizeof t ? r : sizeof t - 1); }
extern "C" int snprintf(char *out, size_t cap, const char *f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(out, cap, f, ap); va_end(ap); return r; }
extern "C" int sprintf(char *out, const char *f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(out, 1 << 30, f, ap); va_end(ap); return r; }
extern "C" double strtod(const char *s, char **e) noexcept {
  const char *p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
  if (vs_istok(p)) { if (e) *e = (char *)p + vs::TOK; return vs_tokval(p); }
  const char *b = p; bool dig = false; if (*p == '-' || *p == '+') p++;
  while (*p >= '0' && *p <= '9') { p++; dig = true; } if (*p == '.') { p++; while (*p >= '0' && *p <= '9') { p++; dig = true; } }
  if (!dig) { if (e) *e = (char *)s; return 0; }
  if (*p == 'e' || *p == 'E') { const char *q = p + 1; if (*q == '-' || *q == '+') q++; if (*q >= '0' && *q <= '9') { while (*q >= '0' && *q <= '9') q++; p = q; } }
  if (e) *e = (char *)p;
  return model_strtod(b, p - b);
}
extern "C" float strtof(const char *s, char **e) noexcept { return (float)strtod(s, e); }
extern "C" long double strtold(const char *s, char **e) noexcept { return strtod(s, e); }
// small C library functions
extern "C" div_t div(int a, int b) noexcept { return {a / b, a % b}; }
extern "C" ldiv_t ldiv(long a, long b) noexcept { return {a / b, a % b}; }
extern "C" lldiv_t lldiv(long long a, long long b) noexcept { return {a / b, a % b}; }
extern "C" char *strcpy(char *d, const char *s) noexcept { memcpy(d, s, strlen(s) + 1); return d; }
extern "C" char *strcat(char *d, const char *s) noexcept { strcpy(d + strlen(d), s); return d; }
extern "C" char *strncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
extern "C" size_t strnlen(const char *s, size_t n) noexcept { size_t i = 0; while (i < n && s[i]) i++; return i; }
#undef isdigit
#undef isspace
#undef isalpha
#undef isalnum
#undef isupper
#undef islower
#undef ispunct
#undef isprint
#undef isxdigit
#undef toupper
#undef tolower
extern "C" int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
extern "C" int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
extern "C" int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
extern "C" int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
extern "C" int isalpha(int c) noexcept { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
extern "C" int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
extern "C" int isprint(int c) noexcept { return c >= 32 && c < 127; }
extern "C" int ispunct(int c) noexcept { return isprint(c) && c != ' ' && !isalnum(c); }
extern "C" int isxdigit(int c) noexcept { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
extern "C" int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
extern "C" int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
namespace { const char *vs_chr(const char *s, int c) { for (;; s++) { if (vs_istok(s)) { s += vs::TOK - 1; continue; } if (*s == (char)c) return s; if (!*s) return nullptr; } } const char *vs_rchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (vs_istok(s)) { s += vs::TOK - 1; continue; } if (*s == (char)c) r = s; if (!*s) return r; } } const char *vs_str(const char *s, const char *t) { size_t n = strlen(t); for (;; s++) { if (vs_istok(s)) { s += vs::TOK - 1; continue; } if (!strncmp(s, t, n)) return s; if (!*s) return nullptr; } } }
extern "C" __attribute__((used)) const char *vs_strchr(const char *s, int c) __asm__("strchr"); extern "C" const char *vs_strchr(const char *s, int c) { return vs_chr(s, c); }
extern "C" __attribute__((used)) const char *vs_strrchr(const char *s, int c) __asm__("strrchr"); extern "C" const char *vs_strrchr(const char *s, int c) { return vs_rchr(s, c); }
extern "C" __attribute__((used)) const char *vs_strstr(const char *s, const char *t) __asm__("strstr"); extern "C" const char *vs_strstr(const char *s, const char *t) { return vs_str(s, t); }
