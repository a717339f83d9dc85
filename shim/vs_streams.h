// Verification stand-in for the libstdc++ stream classes: in-memory buffers,
// numbers written as text when they are concrete and as tokens when they are
// symbolic.  Only used for the symbolic build; native replays use the real library.
#pragma once
#include <bits/c++config.h>
#include <iosfwd>
#include <exception>
#include <string>
#include <new>
#include <stdexcept>
#include <cerrno>
#include <cctype>
#include <cstring>
#include <cstdint>
#include <cstdio>
#include <type_traits>

extern "C" {
double model_fresh_double();
void model_assume(int);
int model_is_concrete_l(long);
int model_is_concrete_d(double);
int model_format_double(char *buf, double v, int prec, int fmt, int isfloat); // fmt 0 default 1 fixed 2 scientific
double model_strtod(const char *p, long n);
int model_write_fault(long bytes); // fault injection: may the store accept this many more bytes?
}

namespace vs {
// token: 0x01, type ('d' or 'i'), fmt, precision, 8 value bytes, 0x02
static const int TOK = 13;
struct Buf {
  char *d = nullptr; size_t n = 0, cap = 0; bool isFile = false; bool broken = false;
  ~Buf() { if (d) ::operator delete(d); }
  void reserve(size_t m) {
    if (m <= cap) return;
    size_t c = cap * 2 + 64; if (c < m) c = m;
    char *p = (char *)::operator new(c);
    if (n) memcpy(p, d, n);
    if (d) ::operator delete(d);
    d = p; cap = c;
  }
  void append(const char *s, size_t m) { if (!m) return; reserve(n + m); memcpy(d + n, s, m); n += m; }
};
struct File { File *next; std::string name; Buf buf; };
extern File *g_files;
File *findFile(const std::string &n);
File *makeFile(const std::string &n);
bool canCreate(const std::string &n);
}

namespace std {
class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
  static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = 32 | 128 | 16, basefield = 2 | 64 | 8, floatfield = 256 | 4;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  class failure : public std::exception { std::string m_; public: explicit failure(const std::string &s) : m_(s) {} const char *what() const noexcept override { return m_.c_str(); } };
  class Init { public: Init() {} };
  fmtflags flags() const { return fl_; }
  fmtflags flags(fmtflags f) { auto o = fl_; fl_ = f; return o; }
  fmtflags setf(fmtflags f) { auto o = fl_; fl_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { auto o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
  void unsetf(fmtflags f) { fl_ &= ~f; }
  streamsize precision() const { return prec_; }
  streamsize precision(streamsize p) { auto o = prec_; prec_ = p; return o; }
  streamsize width() const { return width_; }
  streamsize width(streamsize p) { auto o = width_; width_ = p; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
  virtual ~ios_base() {}
protected:
  fmtflags fl_ = dec | skipws; streamsize prec_ = 6, width_ = 0;
};
template <typename C, typename T> class basic_streambuf { public: typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type; vs::Buf *b_ = nullptr; virtual ~basic_streambuf() {} };
template <typename C, typename T> class basic_ostream;
template <typename C, typename T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  bool good() const { return st_ == 0; }
  bool eof() const { return st_ & eofbit; }
  bool fail() const { return st_ & (badbit | failbit); }
  bool bad() const { return st_ & badbit; }
  iostate rdstate() const { return st_; }
  void clear(iostate s = goodbit) { st_ = s; if (!b_ && !discard_) st_ |= badbit; if (st_ & ex_) throw failure("basic_ios::clear"); }
  void setstate(iostate s) { clear(st_ | s); }
  iostate exceptions() const { return ex_; }
  void exceptions(iostate e) { ex_ = e; clear(st_); }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  C fill() const { return fill_; }
  C fill(C c) { C o = fill_; fill_ = c; return o; }
  C widen(char c) const { return c; }
  char narrow(C c, char) const { return c; }
  basic_ostream<C, T> *tie() const { return nullptr; }
  basic_ostream<C, T> *tie(basic_ostream<C, T> *) { return nullptr; }
  basic_ios &copyfmt(const basic_ios &o) { fl_ = o.fl_; prec_ = o.prec_; width_ = o.width_; fill_ = o.fill_; return *this; }
  basic_ios() {}
  basic_ios(const basic_ios &) = delete;
  basic_ios &operator=(const basic_ios &) = delete;
  vs::Buf *vsbuf() const { return b_; }
  void vsset(vs::Buf *b) { b_ = b; rp_ = wp_ = 0; }
  void vsdiscard(bool d = true) { discard_ = d; }
protected:
  iostate st_ = 0, ex_ = 0; C fill_ = ' '; bool discard_ = false;
  vs::Buf *b_ = nullptr; size_t rp_ = 0, wp_ = 0; // read / write positions
  void vsmove(basic_ios &o) { fl_ = o.fl_; prec_ = o.prec_; width_ = o.width_; st_ = o.st_; ex_ = o.ex_; fill_ = o.fill_; discard_ = o.discard_; b_ = o.b_; rp_ = o.rp_; wp_ = o.wp_; }
};

template <typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
  typedef basic_ios<C, T> B;
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  basic_ostream() {}
  explicit basic_ostream(basic_streambuf<C, T> *s) { if (s) this->b_ = s->b_; else this->st_ |= ios_base::badbit; }
  class sentry { bool ok_; public: explicit sentry(basic_ostream &o) : ok_(o.good()) {} explicit operator bool() const { return ok_; } };
  void vsraw(const C *s, size_t n) {
    if (this->discard_) return;
    if (this->st_) { this->st_ |= ios_base::failbit; return; }
    vs::Buf *b = this->b_;
    if (!b) { this->setstate(ios_base::badbit); return; }
    if (b->isFile && n && !model_write_fault((long)n)) b->broken = true;
    if (b->broken) { this->setstate(ios_base::badbit); return; }
    if (this->wp_ == b->n) { b->append(s, n); this->wp_ = b->n; return; }
    if (this->wp_ + n > b->n) { size_t m = this->wp_ + n; b->reserve(m); b->n = m; }
    memcpy(b->d + this->wp_, s, n); this->wp_ += n;
  }
  // text with field width
  basic_ostream &vsput(const C *s, size_t n) {
    if (this->discard_) return *this;
    streamsize w = this->width_; this->width_ = 0;
    size_t pad = w > (streamsize)n ? w - n : 0;
    bool left = (this->fl_ & ios_base::adjustfield) == ios_base::left;
    if (!left) for (size_t i = 0; i < pad; i++) vsraw(&this->fill_, 1);
    vsraw(s, n);
    if (left) for (size_t i = 0; i < pad; i++) vsraw(&this->fill_, 1);
    return *this;
  }
  basic_ostream &vstok(char type, int fmt, int prec, const void *v8, bool needPadCheck, double mag) {
    streamsize w = this->width_; this->width_ = 0;
    // the field width only matters when nothing else separates two numbers
    bool adj = this->b_ && this->wp_ > 0 && this->b_->d[this->wp_ - 1] == 0x02;
    bool left = (this->fl_ & ios_base::adjustfield) == ios_base::left;
    if (w > 0) {
      bool pad = true;
      if (needPadCheck && (adj || left)) {
        // number of characters: sign, integer digits, point, decimals
        int len = 1 + (fmt == 1 ? (prec ? prec + 1 : 0) : 0); double lim = 10; if (mag < 0) { len++; mag = -mag; }
        while (mag >= lim && len < 40) { lim *= 10; len++; }
        pad = len < w;
      }
      if (pad && !left) { C sp = this->fill_; vsraw(&sp, 1); }
      C t[vs::TOK]; t[0] = 1; t[1] = type; t[2] = fmt; t[3] = prec; memcpy(t + 4, v8, 8); t[12] = 2; vsraw(t, vs::TOK);
      if (pad && left) { C sp = this->fill_; vsraw(&sp, 1); }
      return *this;
    }
    C t[vs::TOK]; t[0] = 1; t[1] = type; t[2] = fmt; t[3] = prec; memcpy(t + 4, v8, 8); t[12] = 2; vsraw(t, vs::TOK);
    return *this;
  }
  basic_ostream &vsint(bool neg, unsigned long v, bool sym) {
    if (this->discard_) return *this;
    if (sym) { long x = neg ? -(long)v : (long)v; return vstok('i', 0, 0, &x, true, (double)x); }
    C t[32]; int i = 32; unsigned base = (this->fl_ & ios_base::hex) ? 16 : (this->fl_ & ios_base::oct) ? 8 : 10;
    do { unsigned dg = v % base; t[--i] = dg < 10 ? '0' + dg : 'a' + dg - 10; v /= base; } while (v);
    if (neg) t[--i] = '-'; else if (this->fl_ & ios_base::showpos) t[--i] = '+';
    return vsput(t + i, 32 - i);
  }
  basic_ostream &vsreal(double v, bool isf) {
    if (this->discard_) return *this;
    int fmt = (this->fl_ & ios_base::floatfield) == ios_base::fixed ? 1 : (this->fl_ & ios_base::floatfield) == ios_base::scientific ? 2 : 0;
    if (model_is_concrete_d(v)) { char t[400]; int n = model_format_double(t, v, (int)this->prec_, fmt, isf); return vsput(t, n); }
    int p = (int)this->prec_; if (p > 60) p = 60;
    return vstok('d', fmt, p, &v, true, v);
  }
  basic_ostream &operator<<(long v) { if (this->discard_) return *this; if (!model_is_concrete_l(v)) { return vstok('i', 0, 0, &v, true, (double)v); } return vsint(v < 0, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, false); }
  basic_ostream &operator<<(unsigned long v) { if (this->discard_) return *this; if (!model_is_concrete_l((long)v)) { return vstok('i', 0, 0, &v, true, (double)v); } return vsint(false, v, false); }
  basic_ostream &operator<<(long long v) { return *this << (long)v; }
  basic_ostream &operator<<(unsigned long long v) { return *this << (unsigned long)v; }
  basic_ostream &operator<<(int v) { return *this << (long)v; }
  basic_ostream &operator<<(unsigned v) { return *this << (unsigned long)v; }
  basic_ostream &operator<<(short v) { return *this << (long)v; }
  basic_ostream &operator<<(unsigned short v) { return *this << (unsigned long)v; }
  basic_ostream &operator<<(bool v) { if (this->fl_ & ios_base::boolalpha) return v ? vsput("true", 4) : vsput("false", 5); return *this << (long)v; }
  basic_ostream &operator<<(double v) { return vsreal(v, false); }
  basic_ostream &operator<<(float v) { return vsreal(v, true); }
  basic_ostream &operator<<(long double v) { return vsreal((double)v, false); }
  basic_ostream &operator<<(const void *) { return vsput("0x0", 3); }
  basic_ostream &operator<<(std::nullptr_t) { return vsput("nullptr", 7); }
  basic_ostream &operator<<(basic_streambuf<C, T> *s) { if (s && s->b_) vsraw(s->b_->d, s->b_->n); return *this; }
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
  basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_ostream &put(C c) { vsraw(&c, 1); return *this; }
  basic_ostream &write(const C *s, streamsize n) { vsraw(s, n); return *this; }
  basic_ostream &flush() { if (this->b_ && this->b_->broken) this->setstate(ios_base::badbit); return *this; }
  pos_type tellp() { return this->fail() ? pos_type(-1) : pos_type(this->wp_); }
  basic_ostream &seekp(pos_type p) { if (!this->fail()) this->wp_ = (size_t)(streamoff)p; return *this; }
  basic_ostream &seekp(off_type o, ios_base::seekdir d) { if (!this->fail() && this->b_) { this->wp_ = (d == ios_base::beg ? 0 : d == ios_base::cur ? this->wp_ : this->b_->n) + o; } return *this; }
};
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { if (!s) { o.setstate(ios_base::badbit); return o; } return static_cast<basic_ostream<char, T> &>(o.vsput(s, strlen(s))); }
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { return o.vsput(&c, 1); }
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { char d = c; return o.vsput(&d, 1); }
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { char d = c; return o.vsput(&d, 1); }
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const unsigned char *s) { return o << (const char *)s; }
template <typename T, typename A> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const basic_string<char, T, A> &s) { return o.vsput(s.data(), s.size()); }
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, basic_string_view<char, T> s) { return o.vsput(s.data(), s.size()); }
template <typename O, typename V, typename = std::enable_if_t<std::is_base_of_v<ios_base, O> && !std::is_lvalue_reference_v<O>>>
auto operator<<(O &&o, const V &v) -> decltype(static_cast<basic_ostream<typename O::char_type, typename O::traits_type> &>(o) << v, static_cast<O &&>(o)) { static_cast<basic_ostream<typename O::char_type, typename O::traits_type> &>(o) << v; return static_cast<O &&>(o); }
template <typename C, typename T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { C c = '\n'; o.vsraw(&c, 1); return o.flush(); }
template <typename C, typename T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o.flush(); }
template <typename C, typename T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { C c = 0; o.vsraw(&c, 1); return o; }

template <typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  streamsize gc_ = 0;
  basic_istream() {}
  explicit basic_istream(basic_streambuf<C, T> *s) { if (s) this->b_ = s->b_; else this->st_ |= ios_base::badbit; }
  size_t vsend() const { return this->b_ ? this->b_->n : 0; }
  bool vsat(size_t p) const { return this->b_ && p < this->b_->n; }
  char vschar(size_t p) const { return this->b_->d[p]; }
  static bool vsspace(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
  // length of the item at p: a whole token, or one character
  size_t vslen(size_t p) const { return vschar(p) == 1 && p + vs::TOK <= vsend() && vschar(p + 12) == 2 ? vs::TOK : 1; }
  class sentry { bool ok_ = false; public: explicit sentry(basic_istream &i, bool noskip = false) { ok_ = i.vssentry(noskip); } explicit operator bool() const { return ok_; } };
  bool vssentry(bool noskip) {
    if (this->st_) { this->setstate(ios_base::failbit); return false; }
    if (!noskip && (this->fl_ & ios_base::skipws)) {
      while (vsat(this->rp_) && vsspace(vschar(this->rp_))) this->rp_++;
      if (!vsat(this->rp_)) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; }
    }
    return true;
  }
  bool vstoken(double &v) {
    size_t p = this->rp_;
    if (vslen(p) != (size_t)vs::TOK) return false;
    int fmt = vschar(p + 2), prec = vschar(p + 3);
    if (vschar(p + 1) == 'i') { long x; memcpy(&x, this->b_->d + p + 4, 8); v = (double)x; }
    else {
      double x; memcpy(&x, this->b_->d + p + 4, 8);
      // what was printed is the value rounded to the requested number of digits
      double r = model_fresh_double(), e = 0.5; int pr = prec; if (fmt == 0 && pr == 0) pr = 1; if (fmt == 0) pr -= 1;
      for (int i = 0; i < pr; i++) e /= 10;
      double d = r - x; if (d < 0) d = -d; double m = x < 0 ? -x : x;
      if (fmt == 1) model_assume(d <= e); else model_assume((d <= e * m) & ((m == 0) | (d < m)));
      v = r;
    }
    this->rp_ += vs::TOK;
    if (!vsat(this->rp_)) this->st_ |= ios_base::eofbit;
    else if (vschar(this->rp_) == 1 || (vschar(this->rp_) >= '0' && vschar(this->rp_) <= '9')) { v = model_fresh_double(); /* run together: not what was written */ while (vsat(this->rp_) && !vsspace(vschar(this->rp_))) this->rp_ += vslen(this->rp_); }
    return true;
  }
  bool vsreadint(long &out, bool &neg, bool &overflow, unsigned long maxmag_pos, unsigned long maxmag_neg, unsigned long &mag) {
    if (vschar(this->rp_) == 1 && vslen(this->rp_) == (size_t)vs::TOK) {
      size_t p = this->rp_;
      if (vschar(p + 1) == 'i') { memcpy(&out, this->b_->d + p + 4, 8); this->rp_ += vs::TOK; if (!vsat(this->rp_)) this->st_ |= ios_base::eofbit; neg = out < 0; mag = neg ? 0ul - (unsigned long)out : (unsigned long)out; overflow = neg ? mag > maxmag_neg : mag > maxmag_pos; return true; }
      // a real number's text read as an integer: its integer part, the rest stays
      double x; memcpy(&x, this->b_->d + p + 4, 8); out = (long)x; neg = x < 0; mag = neg ? 0ul - (unsigned long)out : (unsigned long)out; overflow = false; this->rp_ += vs::TOK; return true;
    }
    neg = false; overflow = false; mag = 0; size_t p = this->rp_; bool any = false;
    if (vsat(p) && (vschar(p) == '-' || vschar(p) == '+')) { neg = vschar(p) == '-'; p++; }
    while (vsat(p) && vschar(p) >= '0' && vschar(p) <= '9') {
      unsigned dg = vschar(p) - '0'; any = true; p++;
      if (mag > (~0ul - dg) / 10) overflow = true; else mag = mag * 10 + dg;
    }
    this->rp_ = p;
    if (!vsat(p)) this->st_ |= ios_base::eofbit;
    if (mag > (neg ? maxmag_neg : maxmag_pos)) overflow = true;
    out = neg ? (long)(0ul - mag) : (long)mag;
    return any;
  }
  template <typename I> basic_istream &vsint(I &v) {
    if (!vssentry(false)) return *this;
    long x; bool neg, ov; unsigned long mag; const bool sg = std::is_signed<I>::value;
    const unsigned long mx = sg ? ~0ul >> (65 - 8 * sizeof(I)) : ~0ul >> (64 - 8 * sizeof(I));
    bool ok = vsreadint(x, neg, ov, mx, sg ? mx + 1 : mx, mag);
    if (!ok) { v = 0; this->setstate(ios_base::failbit); return *this; }
    if (ov) { v = sg ? (neg ? (I)(0ul - mx - 1) : (I)mx) : (I)mx; this->setstate(ios_base::failbit); return *this; }
    v = (I)x; this->clear(this->st_); return *this;
  }
  basic_istream &operator>>(short &v) { return vsint(v); }
  basic_istream &operator>>(unsigned short &v) { return vsint(v); }
  basic_istream &operator>>(int &v) { return vsint(v); }
  basic_istream &operator>>(unsigned &v) { return vsint(v); }
  basic_istream &operator>>(long &v) { return vsint(v); }
  basic_istream &operator>>(unsigned long &v) { return vsint(v); }
  basic_istream &operator>>(long long &v) { return vsint(v); }
  basic_istream &operator>>(unsigned long long &v) { return vsint(v); }
  basic_istream &operator>>(bool &v) { int x = 0; vsint(x); v = x != 0; if (x != 0 && x != 1) this->setstate(ios_base::failbit); return *this; }
  template <typename F> basic_istream &vsreal(F &v) {
    if (!vssentry(false)) return *this;
    double x;
    if (vstoken(x)) { v = (F)x; this->clear(this->st_); return *this; }
    size_t p = this->rp_, s = p; bool any = false, dot = false, ex = false, exd = false;
    if (vsat(p) && (vschar(p) == '-' || vschar(p) == '+')) p++;
    for (; vsat(p); p++) {
      char c = vschar(p);
      if (c >= '0' && c <= '9') { if (ex) exd = true; else any = true; }
      else if (c == '.' && !dot && !ex) dot = true;
      else if ((c == 'e' || c == 'E') && any && !ex) { ex = true; if (vsat(p + 1) && (vschar(p + 1) == '-' || vschar(p + 1) == '+')) p++; }
      else break;
    }
    this->rp_ = p;
    if (!vsat(p)) this->st_ |= ios_base::eofbit;
    if (!any || (ex && !exd)) { v = 0; this->setstate(ios_base::failbit); return *this; }
    v = (F)model_strtod(this->b_->d + s, (long)(p - s));
    this->clear(this->st_); return *this;
  }
  basic_istream &operator>>(double &v) { return vsreal(v); }
  basic_istream &operator>>(float &v) { return vsreal(v); }
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
  basic_istream &operator>>(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
  basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  streamsize gcount() const { return gc_; }
  int_type get() { gc_ = 0; if (!vssentry(true)) return T::eof(); if (!vsat(this->rp_)) { this->setstate(ios_base::eofbit | ios_base::failbit); return T::eof(); } gc_ = 1; return T::to_int_type(vschar(this->rp_++)); }
  basic_istream &get(C &c) { int_type r = get(); if (!T::eq_int_type(r, T::eof())) c = T::to_char_type(r); return *this; }
  int_type peek() { gc_ = 0; if (!vssentry(true)) return T::eof(); if (!vsat(this->rp_)) { this->setstate(ios_base::eofbit); return T::eof(); } return T::to_int_type(vschar(this->rp_)); }
  basic_istream &unget() { gc_ = 0; this->st_ &= ~ios_base::eofbit; if (this->rp_ > 0) this->rp_--; else this->setstate(ios_base::badbit); return *this; }
  basic_istream &putback(C) { return unget(); }
  basic_istream &read(C *s, streamsize n) {
    gc_ = 0; if (!vssentry(true)) return *this;
    size_t av = this->rp_ < vsend() ? vsend() - this->rp_ : 0, m = (size_t)n < av ? (size_t)n : av;
    if (m) memcpy(s, this->b_->d + this->rp_, m);
    this->rp_ += m; gc_ = m;
    if ((streamsize)m < n) this->setstate(ios_base::eofbit | ios_base::failbit);
    return *this;
  }
  streamsize readsome(C *s, streamsize n) { if (!vssentry(true)) return 0; size_t av = this->rp_ < vsend() ? vsend() - this->rp_ : 0, m = (size_t)n < av ? (size_t)n : av; if (m) memcpy(s, this->b_->d + this->rp_, m); this->rp_ += m; gc_ = m; return m; }
  basic_istream &ignore(streamsize n = 1, int_type delim = T::eof()) {
    gc_ = 0; if (!vssentry(true)) return *this;
    bool unlim = n == 0x7fffffffffffffffL;
    while (unlim || gc_ < n) {
      if (!vsat(this->rp_)) { this->setstate(ios_base::eofbit); break; }
      size_t l = vslen(this->rp_); char c = vschar(this->rp_); this->rp_ += l; gc_++;
      if (l == 1 && !T::eq_int_type(delim, T::eof()) && T::eq_int_type(T::to_int_type(c), delim)) break;
    }
    return *this;
  }
  basic_istream &getline(C *s, streamsize n, C delim = '\n') {
    gc_ = 0; streamsize i = 0; if (!vssentry(true)) { if (n) *s = 0; return *this; }
    for (;;) { if (!vsat(this->rp_)) { this->st_ |= ios_base::eofbit; break; } char c = vschar(this->rp_); if (c == delim) { this->rp_++; gc_++; break; } if (i + 1 >= n) { this->st_ |= ios_base::failbit; break; } s[i++] = c; this->rp_++; gc_++; }
    if (n) s[i] = 0; if (!gc_) this->st_ |= ios_base::failbit; this->clear(this->st_); return *this;
  }
  pos_type tellg() { vssentry(true); return this->fail() ? pos_type(-1) : pos_type((streamoff)this->rp_); }
  basic_istream &seekg(pos_type p) { return seekg((streamoff)p, ios_base::beg); }
  basic_istream &seekg(off_type o, ios_base::seekdir d) {
    this->clear(this->st_ & ~ios_base::eofbit); vssentry(true); if (this->fail()) return *this;
    long base = d == ios_base::beg ? 0 : d == ios_base::cur ? (long)this->rp_ : (long)vsend();
    long t = base + (long)o;
    if (t < 0 || (!this->b_->isFile && t > (long)vsend())) { this->setstate(ios_base::failbit); return *this; }
    this->rp_ = (size_t)t; return *this;
  }
  int sync() { return 0; }
};
template <typename T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, char &c) { if (!i.vssentry(false)) return i; int r = i.get(); if (r != T::eof()) c = (char)r; return i; }
template <typename T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, unsigned char &c) { char d; if (i >> d) c = d; return i; }
template <typename T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, signed char &c) { char d; if (i >> d) c = d; return i; }
template <typename O, typename V, typename = std::enable_if_t<std::is_base_of_v<ios_base, O> && !std::is_lvalue_reference_v<O>>>
auto operator>>(O &&o, V &&v) -> decltype(static_cast<basic_istream<typename O::char_type, typename O::traits_type> &>(o) >> v, static_cast<O &&>(o)) { static_cast<basic_istream<typename O::char_type, typename O::traits_type> &>(o) >> v; return static_cast<O &&>(o); }
template <typename C, typename T> basic_istream<C, T> &ws(basic_istream<C, T> &i) { while (i.good() && i.vsat((size_t)(streamoff)i.tellg()) && basic_istream<C, T>::vsspace((char)i.peek())) i.get(); if (i.good()) i.peek(); return i; }

template <typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  basic_iostream() {}
  explicit basic_iostream(basic_streambuf<C, T> *s) : basic_istream<C, T>(s) {}
};

inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &showpoint(ios_base &b) { b.setf(ios_base::showpoint); return b; }
inline ios_base &noshowpoint(ios_base &b) { b.unsetf(ios_base::showpoint); return b; }
inline ios_base &showpos(ios_base &b) { b.setf(ios_base::showpos); return b; }
inline ios_base &noshowpos(ios_base &b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }
inline ios_base &nouppercase(ios_base &b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base &unitbuf(ios_base &b) { b.setf(ios_base::unitbuf); return b; }
inline ios_base &internal(ios_base &b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &hexfloat(ios_base &b) { b.setf(ios_base::fixed | ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }

struct vs_setw { int n; }; struct vs_setprec { int n; }; template <typename C> struct vs_setfill { C c; }; struct vs_setiosflags { ios_base::fmtflags f; bool on; };
inline vs_setw setw(int n) { return {n}; }
inline vs_setprec setprecision(int n) { return {n}; }
template <typename C> inline vs_setfill<C> setfill(C c) { return {c}; }
inline vs_setiosflags setiosflags(ios_base::fmtflags f) { return {f, true}; }
inline vs_setiosflags resetiosflags(ios_base::fmtflags f) { return {f, false}; }
template <typename C, typename T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, vs_setw w) { o.width(w.n); return o; }
template <typename C, typename T> basic_istream<C, T> &operator>>(basic_istream<C, T> &o, vs_setw w) { o.width(w.n); return o; }
template <typename C, typename T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, vs_setprec w) { o.precision(w.n); return o; }
template <typename C, typename T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, vs_setfill<C> w) { o.fill(w.c); return o; }
template <typename C, typename T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, vs_setiosflags w) { if (w.on) o.setf(w.f); else o.unsetf(w.f); return o; }

// string streams
inline namespace __cxx11 {
template <typename C, typename T, typename A> class basic_stringbuf : public basic_streambuf<C, T> { vs::Buf own_; public: basic_stringbuf() { this->b_ = &own_; } };
#define VS_STRINGSTREAM(NAME, BASE, DEFMODE)                                                            \
  template <typename C, typename T, typename A> class NAME : public BASE<C, T> {                        \
    vs::Buf own_;                                                                                       \
  public:                                                                                               \
    typedef C char_type; typedef T traits_type; typedef basic_string<C, T, A> vs_string;                \
    typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type; \
    NAME() { this->b_ = &own_; }                                                                        \
    explicit NAME(ios_base::openmode) { this->b_ = &own_; }                                             \
    explicit NAME(const vs_string &s, ios_base::openmode m = DEFMODE) { this->b_ = &own_; own_.append(s.data(), s.size()); if (m & ios_base::ate) this->wp_ = own_.n; } \
    NAME(NAME &&o) { this->vsmove(o); this->b_ = &own_; own_.append(o.own_.d, o.own_.n); o.own_.n = 0; o.rp_ = o.wp_ = 0; }      \
    NAME &operator=(NAME &&o) { this->vsmove(o); this->b_ = &own_; own_.n = 0; own_.append(o.own_.d, o.own_.n); o.own_.n = 0; o.rp_ = o.wp_ = 0; return *this; } \
    vs_string str() const { return own_.n ? vs_string(own_.d, own_.n) : vs_string(); }                  \
    void str(const vs_string &s) { own_.n = 0; this->rp_ = this->wp_ = 0; own_.append(s.data(), s.size()); } \
    basic_stringbuf<C, T, A> *rdbuf() const { static basic_stringbuf<C, T, A> sb; sb.b_ = const_cast<vs::Buf *>(&own_); return &sb; } \
  };
VS_STRINGSTREAM(basic_istringstream, basic_istream, ios_base::in)
VS_STRINGSTREAM(basic_ostringstream, basic_ostream, ios_base::out)
VS_STRINGSTREAM(basic_stringstream, basic_iostream, (ios_base::in | ios_base::out))
}
#undef VS_STRINGSTREAM

// file streams over an in-memory store
#define VS_FILESTREAM(NAME, BASE, DEFMODE, FORCED)                                                      \
  template <typename C, typename T> class NAME : public BASE<C, T> {                                    \
    bool open_ = false;                                                                                 \
  public:                                                                                               \
    typedef C char_type; typedef T traits_type;                                                         \
    typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type; \
    NAME() { this->vsdiscard_(); }                                                                      \
    explicit NAME(const std::string &n, ios_base::openmode m = DEFMODE) { this->vsdiscard_(); open(n, m); } \
    explicit NAME(const char *n, ios_base::openmode m = DEFMODE) { this->vsdiscard_(); open(std::string(n), m); } \
    NAME(NAME &&o) { this->vsmove(o); open_ = o.open_; o.open_ = false; o.b_ = nullptr; }                \
    NAME &operator=(NAME &&o) { this->vsmove(o); open_ = o.open_; o.open_ = false; o.b_ = nullptr; return *this; } \
    ~NAME() {}                                                                                          \
    void vsdiscard_() { static vs::Buf none; none.isFile = true; none.broken = true; none.n = 0; this->b_ = &none; } \
    void open(const char *n, ios_base::openmode m = DEFMODE) { open(std::string(n), m); }               \
    void open(const std::string &n, ios_base::openmode m = DEFMODE) {                                   \
      m |= FORCED;                                                                                      \
      if (open_) { this->setstate(ios_base::failbit); return; }                                         \
      vs::File *f = vs::findFile(n);                                                                    \
      const bool w = m & (ios_base::out | ios_base::app);                                               \
      if (!f && w && !((m & ios_base::in) && !(m & ios_base::trunc)) && vs::canCreate(n)) f = vs::makeFile(n); \
      if (!f) { this->setstate(ios_base::failbit); return; }                                            \
      if ((m & ios_base::trunc) || (w && !(m & (ios_base::in | ios_base::app)))) f->buf.n = 0;          \
      this->b_ = &f->buf; this->rp_ = 0; this->wp_ = (m & (ios_base::app | ios_base::ate)) ? f->buf.n : 0; open_ = true; this->clear(); \
    }                                                                                                   \
    bool is_open() const { return open_; }                                                              \
    void close() { if (!open_) { this->setstate(ios_base::failbit); return; } open_ = false; if (this->b_->broken) this->setstate(ios_base::failbit); vsdiscard_(); } \
  };
VS_FILESTREAM(basic_ifstream, basic_istream, ios_base::in, ios_base::in)
VS_FILESTREAM(basic_ofstream, basic_ostream, ios_base::out, ios_base::out)
VS_FILESTREAM(basic_fstream, basic_iostream, (ios_base::in | ios_base::out), 0u)
#undef VS_FILESTREAM

extern istream cin; extern ostream cout; extern ostream cerr; extern ostream clog;
template <> basic_istream<char> &operator>>(basic_istream<char> &, basic_string<char> &);
template <> basic_istream<char> &getline(basic_istream<char> &, basic_string<char> &, char);

class locale { public: locale() {} explicit locale(const char *) {} static const locale &classic() { static locale l; return l; } };
} // namespace std
