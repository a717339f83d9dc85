//@ entry c02_matrix reach=visited,empty
//@ entry c02_view reach=visited,empty
//@ entry c02_expr reach=visited,empty
//@ entry c02_algo reach=algo
//@ entry c02_from reach=from
//@ entry c02_wide reach=visited,algo
//@ entry c02_exact fp=ieee reach=exact
//@ entry c02_huge reach=huge
//@ bounds quick: matrices up to 3x3x2 including empty dimensions, every sub-view of a 3x3x2 matrix; c02_wide: the shapes 9x5x3, 1x33x1, 18x1x2, 4x7x5, 300x1x1, 1x300x1, 1x1x300 and 18x17x1, and a 4x3x2 view inside a 9x5x3 matrix; c02_from: iterators placed at any element of the 3x3x2 shapes; c02_exact: any IEEE double of magnitude 1e-200 to 1e200; c02_huge: 7 shapes of 67600 to 138000 elements, one of them symbolic
//@ bounds thorough: matrices up to 4x4x3, every sub-view of a 4x3x3 matrix
#include <algorithm>
#include "mx.h"
// Walk a range and check it visits each coordinate exactly once, in order, with the right value.
template <class M, class F> void walk(M &&m, int X, int Y, int Z, F value, bool post) {
  long n = 0, total = (long)X * Y * Z;
  auto e = m.end();
  auto b = m.begin();
  for (auto it = m.begin(); it != e;) {
    sym_assert(n < total, "iteration stops after the last element");
    dim3 i = it.idx();
    sym_assert(i.x == n % X && i.y == n / X % Y && i.z == n / X / Y, "elements are visited once each, first coordinate fastest");
    sym_close((double)*it, value(i.x, i.y, i.z), "the iterator yields the element at its coordinate");
    sym_assert(it - b == n, "distance counts the elements passed");
    sym_assert(!(it == e), "equality of iterators");
    if (post) { auto old = it++; dim3 j = old.idx(); sym_assert(j.x == n % X && j.y == n / X % Y && j.z == n / X / Y, "post-increment returns the old position"); }
    else ++it;
    n++;
  }
  sym_assert(n == total, "every element is visited");
  if (n) sym_reach("visited"); else sym_reach("empty");
}
static void matrix(int X, int Y, int Z) {
  Ref<double> r = symRef<double>("v", X, Y, Z);
  SimpleMatrix<double> m = toMatrix(r);
  auto val = [&](int x, int y, int z) { return r.at(x, y, z); };
  bool post = sym_fork(sym_bool("post"));
  if (sym_fork(sym_bool("const"))) walk((const SimpleMatrix<double> &)m, X, Y, Z, val, post); else walk(m, X, Y, Z, val, post);
}
ENTRY(c02_matrix) { int N = sym_tier() ? 4 : 3, K = sym_tier() ? 3 : 2; int X = sym_dim("X", 0, N), Y = sym_dim("Y", 0, N), Z = sym_dim("Z", 0, K); matrix(X, Y, Z); }
static void view(int X, int Y, int Z, int a, int b, int c, int p, int q, int s) {
  Ref<double> r = symRef<double>("v", X, Y, Z);
  SimpleMatrix<double> m = toMatrix(r);
  auto val = [&](int x, int y, int z) { return r.at(a + x, b + y, c + z); };
  if (sym_fork(sym_bool("const"))) { const SimpleMatrix<double> &cm = m; walk(cm.subMatView(dim3(a, b, c), dim3(p, q, s)), p, q, s, val, false); }
  else {
    auto v = m.subMatView(dim3(a, b, c), dim3(p, q, s)); walk(v, p, q, s, val, true);
    for (auto &e : v) e += 1; // writing through the iterator reaches exactly the region
    EACH(r, x, y, z) {
      bool in = x >= a && x < a + p && y >= b && y < b + q && z >= c && z < c + s;
      sym_close(m(x, y, z), r.at(x, y, z) + (in ? 1 : 0), "writing through a view's iterator changes its region exactly once");
    }
  }
}
ENTRY(c02_view) {
  int X = sym_tier() ? 4 : 3, Y = 3, Z = sym_tier() ? 3 : 2, a = sym_dim("a", 0, X), b = sym_dim("b", 0, Y), c = sym_dim("c", 0, Z);
  int p = sym_dim("p", 0, X - a), q = sym_dim("q", 0, Y - b), s = sym_dim("s", 0, Z - c); view(X, Y, Z, a, b, c, p, q, s);
}
static void expr(int X, int Y, int Z) {
  int kind = sym_dim("kind", 0, 5); bool konst = sym_fork(sym_bool("const"));
  auto walk = [&](auto &&e, int X, int Y, int Z, auto value, bool post) { if (konst) ::walk((const std::decay_t<decltype(e)> &)e, X, Y, Z, value, post); else ::walk(e, X, Y, Z, value, post); };
  Ref<double> r = symRef<double>("v", X, Y, Z), t = symRef<double>("w", X, Y, Z);
  SimpleMatrix<double> m = toMatrix(r), k = toMatrix(t);
  double s = sym_double("s");
  if (kind == 0) walk(m + k, X, Y, Z, [&](int x, int y, int z) { return r.at(x, y, z) + t.at(x, y, z); }, true);
  else if (kind == 1) walk(m - s, X, Y, Z, [&](int x, int y, int z) { return r.at(x, y, z) - s; }, false);
  else if (kind == 2) walk(my_cnn::transpose(m), Y, X, Z, [&](int x, int y, int z) { return r.at(y, x, z); }, true);
  else if (kind == 3) walk(my_cnn::apply(m, [](double d) { return 2 * d; }), X, Y, Z, [&](int x, int y, int z) { return 2 * r.at(x, y, z); }, false);
  else if (kind == 4) { auto e = m * s + k; walk((const decltype(e) &)e, X, Y, Z, [&](int x, int y, int z) { return r.at(x, y, z) * s + t.at(x, y, z); }, false); }
  else walk(my_cnn::matrixMultiply(m, my_cnn::transpose(k)), X, X, Z, [&](int x, int y, int z) { double a = 0; for (int i = 0; i < Y; i++) a += r.at(x, i, z) * t.at(y, i, z); return a; }, false);
}
ENTRY(c02_expr) { int N = sym_tier() ? 4 : 3, X = sym_dim("X", 0, N), Y = sym_dim("Y", 0, N), Z = sym_dim("Z", 0, 2); expr(X, Y, Z); }
static void algo(int X, int Y, int Z) { // standard algorithms over matrices
  Ref<double> r = symRef<double>("v", X, Y, Z);
  SimpleMatrix<double> m = toMatrix(r), k(dim3(X, Y, Z));
  std::copy(m.begin(), m.end(), k.begin());
  expectSame(k, r, "copying a range copies every element");
  std::fill(k.begin(), k.end(), 7.0);
  EACH(r, x, y, z) sym_assert(k(x, y, z) == 7.0, "filling a range fills every element");
  my_cnn::modify(m, [](double d) { return 3 * d - 1; });
  EACH(r, x, y, z) sym_close(m(x, y, z), 3 * r.at(x, y, z) - 1, "modifying in place touches every element once");
  sym_assert(std::distance(m.begin(), m.end()) == X * Y * Z, "length of the range");
  sym_reach("algo");
}
ENTRY(c02_algo) { int X = sym_dim("X", 1, 3), Y = sym_dim("Y", 1, 2), Z = sym_dim("Z", 1, 2); algo(X, Y, Z); }
ENTRY(c02_from) { // an iterator placed anywhere
  int X = sym_dim("X", 1, 3), Y = sym_dim("Y", 1, 3), Z = sym_dim("Z", 1, 2), n = sym_dim("at", 0, X * Y * Z - 1), how = sym_dim("of", 0, 2); Ref<double> r = symRef<double>("v", X, Y, Z); SimpleMatrix<double> m = toMatrix(r); dim3 at(n % X, n / X % Y, n / X / Y);
  auto go = [&](auto it, auto b, auto e) { sym_assert(it - b == n && e - it == X * Y * Z - n, "distance counts the elements passed"); for (int i = n; i < X * Y * Z; i++, ++it) { sym_assert(it != e && it.idx() == dim3(i % X, i / X % Y, i / X / Y), "iteration continues from the place it was started at"); sym_close(*it, r.v[i], "the iterator yields the element at its coordinate"); } sym_assert(it == e, "iteration stops after the last element"); };
  if (how == 0) go(my_cnn::MatrixIterator<SimpleMatrix<double> &>(m, at), m.begin(), m.end()); else if (how == 1) { const SimpleMatrix<double> &c = m; go(my_cnn::MatrixIterator<const SimpleMatrix<double> &>(c, at), c.begin(), c.end()); } else { auto v = m.subMatView(dim3(0, 0, 0), m.dim()); go(my_cnn::MatrixIterator<decltype(v) &>(v, at), v.begin(), v.end()); } sym_reach("from");
}
ENTRY(c02_wide) { WIDE; int k = sym_dim("k", 0, 3); if (k == 0) matrix(X, Y, Z); else if (k == 1) algo(X, Y, Z); else if (k == 2) expr(X, Y, Z); else view(X + 4, Y + 2, Z + 1, 3, 1, 1, X, Y, Z); }
ENTRY(c02_exact) { // an iterator yields every bit of its element
  int at = sym_dim("at", 0, 3); double v = fullDouble("v"), w = fullDouble("w"); SimpleMatrix<double> m(dim3(2, 2, 1), 1.0); m[at] = v; auto e = m * 1.0; auto s = m.subMatView(dim3(0, 0, 0), dim3(2, 2, 1)); const SimpleMatrix<double> &c = m; auto i = m.begin(); auto j = e.begin(); auto k = s.begin(); auto l = c.begin(); for (int n = 0; n < at; n++) { ++i; ++j; ++k; ++l; }
  sym_assert(*i == v && *j == v && *k == v && *l == v, "the iterator yields exactly the element"); *i = w; sym_assert(m[at] == w, "writing through an iterator keeps every bit"); *k = v; sym_assert(m[at] == v, "writing through an iterator keeps every bit"); sym_reach("exact");
}
ENTRY(c02_huge) { // more elements than 16 bits can count
  HUGE_SHAPE; int n = X * Y * Z, how = sym_dim("of", 0, 2), k = 65536 + how; double v = sym_double("v"); SimpleMatrix<double> m(dim3(X, Y, Z), 5.0); m[k] = v; const SimpleMatrix<double> &c = m;
  auto go = [&](auto b, auto e) { dim3 d(0, 0, 0); int i = 0, seen = 0; bool ok = true; for (auto it = b; it != e; ++it, ++i) { const dim3 &p = it.idx(); ok = ok & (p.x == d.x) & (p.y == d.y) & (p.z == d.z); if (++d.x == X) { d.x = 0; if (++d.y == Y) { d.y = 0; d.z++; } } if (i >= k && seen < 3) { sym_close(*it, i == k ? v : 5.0, "the iterator yields the element at its coordinate"); sym_assert(it - b == i, "distance counts the elements passed"); seen++; } if (i > n) break; }
    sym_assert(ok && i == n && seen == 3, "elements are visited once each, first coordinate fastest"); sym_assert(e - b == n && b - e == -n, "distance counts the elements passed"); };
  if (how == 0) go(m.begin(), m.end()); else if (how == 1) go(c.begin(), c.end()); else { auto w = m.subMatView(dim3(0, 0, 0), m.dim()); go(w.begin(), w.end()); }
  auto it = my_cnn::MatrixIterator<SimpleMatrix<double> &>(m, posOf(k, X, Y)); sym_close(*it, v, "the iterator yields the element at its coordinate"); sym_assert(it - m.begin() == k && m.end() - it == n - k, "distance counts the elements passed"); *it = 7; ++it; *it = 8; sym_assert(m[k] == 7 && m[k + 1] == 8 && m[k - 1] == 5 && m[k - 65536] == 5, "writing through an iterator changes its element only");
  sym_reach("huge");
}
