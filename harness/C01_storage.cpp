//@ entry c01_write reach=written,other
//@ entry c01_forms reach=forms
//@ entry c01_list reach=filled,wrong_length
//@ entry c01_init reach=init
//@ entry c01_wide reach=forms,filled,wrong_length
//@ entry c01_exact fp=ieee reach=exact
//@ entry c01_huge reach=huge
//@ bounds quick: matrices up to 3x3x2; element values symbolic over the whole type; list lengths 0..size+2; c01_wide: the shapes 9x5x3, 1x33x1, 18x1x2, 4x7x5, 300x1x1, 1x300x1, 1x1x300 and 18x17x1; c01_exact: any IEEE double of magnitude 1e-200 to 1e200, bit for bit; c01_huge: 7 shapes of 67600 to 138000 elements, one of them symbolic
//@ bounds thorough: as quick with matrices up to 4x4x3 (c01_write), 5x5x4 (c01_forms), 3x3x3 (c01_list)
#include "mx.h"
ENTRY(c01_write) { // writing one coordinate changes that element and no other
  int N = sym_tier() ? 4 : 3, K = sym_tier() ? 3 : 2;
  int X = sym_dim("X", 1, N), Y = sym_dim("Y", 1, N), Z = sym_dim("Z", 1, K);
  Ref<int> r = symRef<int>("old", X, Y, Z);
  SimpleMatrix<int> m = toMatrix(r);
  int a = sym_int("a", 0, X - 1), b = sym_int("b", 0, Y - 1), c = sym_int("c", 0, Z - 1);
  int p = sym_int("p", 0, X - 1), q = sym_int("q", 0, Y - 1), s = sym_int("s", 0, Z - 1);
  int before = m(p, q, s);
  sym_assert(before == r.v[((size_t)s * Y + q) * X + p], "every coordinate has its own element");
  int w = symT<int>("w");
  if (sym_bool("form")) m(a, b, c) = w; else m(dim3(a, b, c)) = w;
  const SimpleMatrix<int> &cm = m;
  bool same = (p == a) & (q == b) & (s == c);
  sym_assert(cm(p, q, s) == (same ? w : before), "a write changes the addressed element and no other");
  if (same) sym_reach("written"); else sym_reach("other");
}
static void forms(int X, int Y, int Z) { // all access forms agree
  Ref<double> r = symRef<double>("v", X, Y, Z);
  SimpleMatrix<double> m = toMatrix(r);
  const SimpleMatrix<double> &cm = m;
  sym_assert(m.size() == (size_t)(X * Y * Z) && m.dims() == dim3(X, Y, Z) && m.dim(0) == X && m.dim(1) == Y && m.dim(2) == Z, "reported size");
  sym_assert(m.isSquare() == (X == Y) && m.isFlat() == (Z == 1) && m.isRow() == (Z == 1 && X == 1) && m.isColumn() == (Z == 1 && Y == 1), "shape predicates");
  size_t n = 0;
  EACH(r, x, y, z) {
    sym_assert(&m(x, y, z) == &m(dim3(x, y, z)) && &cm(x, y, z) == &cm(dim3(x, y, z)) && &m(x, y, z) == &cm(x, y, z), "coordinate forms agree");
    size_t i = m.getIndex(x, y, z);
    sym_assert(i == n && m.getIndex(dim3(x, y, z)) == i && i < m.size(), "flat index enumerates the elements, first coordinate fastest");
    sym_assert(&m[i] == &m(x, y, z) && &cm[i] == &m(x, y, z), "flat access addresses the same element");
    if (z == 0) sym_assert(&m(x, y) == &m(x, y, 0) && &cm(x, y) == &m(x, y, 0) && m.getIndex(x, y) == i, "two coordinates address the first layer");
    sym_close(cm(x, y, z), r.at(x, y, z), "value read back");
    n++;
  }
  sym_reach("forms");
}
ENTRY(c01_forms) { int N = sym_tier() ? 5 : 3, K = sym_tier() ? 4 : 2; int X = sym_dim("X", 1, N), Y = sym_dim("Y", 1, N), Z = sym_dim("Z", 1, K); forms(X, Y, Z); }
static void list(int X, int Y, int Z, int len) { // value lists: row by row, layer by layer; a wrong length is rejected and leaves the matrix alone
  int how = sym_dim("how", 0, 2);
  std::vector<double> v; for (int i = 0; i < len; i++) v.push_back(sym_double("v"));
  std::vector<double> u = v;
  if (len != X * Y * Z) {
    Ref<double> r = symRef<double>("old", X, Y, Z);
    SimpleMatrix<double> m = toMatrix(r);
    bool rej = how == 0 ? rejects([&] { SimpleMatrix<double> k(dim3(X, Y, Z), std::move(u)); })
             : how == 1 ? rejects([&] { m.setEntries(std::move(u)); }) : rejects([&] { m = std::move(u); });
    sym_assert(rej, "a list of the wrong length is rejected");
    expectSame(m, r, "a rejected list leaves the matrix unchanged");
    sym_reach("wrong_length");
    return;
  }
  SimpleMatrix<double> m(dim3(X, Y, Z));
  if (how == 0) m = SimpleMatrix<double>(dim3(X, Y, Z), std::move(u)); else if (how == 1) m.setEntries(std::move(u)); else m = std::move(u);
  sym_assert(m.dim() == dim3(X, Y, Z) && m.size() == v.size(), "filling keeps the size");
  for (int z = 0, i = 0; z < Z; z++) for (int x = 0; x < X; x++) for (int y = 0; y < Y; y++, i++) {
    if (how < 2) sym_close(m(x, y, z), v[i], "list order: layer, then row, then column");
    else sym_close(m[i], v[i], "assigned values are the elements in storage order");
  }
  sym_reach("filled");
}
ENTRY(c01_list) { int N = 3, K = sym_tier() ? 3 : 2, X = sym_dim("X", 1, N), Y = sym_dim("Y", 1, N), Z = sym_dim("Z", 1, K), len = sym_fork(sym_int("len", 0, X * Y * Z + 2)); list(X, Y, Z, len); }
ENTRY(c01_wide) { WIDE; int k = sym_dim("k", 0, 3); if (k == 3) forms(X, Y, Z); else list(X, Y, Z, X * Y * Z + k - 1); }
ENTRY(c01_init) { // initial value
  int X = sym_dim("X", 0, 3), Y = sym_dim("Y", 0, 3), Z = sym_dim("Z", 0, 2);
  double v = sym_double("v");
  SimpleMatrix<double> m(dim3(X, Y, Z), v), k(dim3(X, Y, Z)), e;
  sym_assert(m.size() == (size_t)(X * Y * Z) && k.size() == m.size() && e.size() == 0 && e.dim() == dim3(0, 0, 0), "size of a new matrix");
  for (int z = 0; z < Z; z++) for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) {
    sym_close(m(x, y, z), v, "initial value everywhere");
    sym_assert(k(x, y, z) == 0, "default initial value is zero");
  }
  sym_reach("init");
}
ENTRY(c01_exact) { // every bit of an element is kept
  int at = sym_dim("at", 0, 3), how = sym_dim("how", 0, 4); double v = fullDouble("v"); dim3 d(at % 2, at / 2, 0); SimpleMatrix<double> m(dim3(2, 2, 1), how == 3 ? v : 0.0);
  if (how == 0) m(d) = v; if (how == 1) m((uint32_t)d.x, (uint32_t)d.y, 0u) = v; if (how == 2) m[at] = v; if (how == 4) { std::vector<double> l(4, 0.0); l[d.x * 2 + d.y] = v; m.setEntries(std::move(l)); }
  sym_assert(m(d) == v && m[at] == v && m((uint32_t)d.x, (uint32_t)d.y, 0u) == v, "an element reads back exactly as written"); sym_reach("exact");
}
ENTRY(c01_huge) { // more elements than 16 bits can count
  HUGE_SHAPE; int n = X * Y * Z, k = hugePos(n), how = sym_dim("how", 0, 3); dim3 d = posOf(k, X, Y); double v = sym_double("v"); SimpleMatrix<double> m(dim3(X, Y, Z), 5.0); const SimpleMatrix<double> &c = m;
  sym_assert(m.size() == (size_t)n && c.getIndex(d) == (size_t)k && c.getIndex(d.x, d.y, d.z) == (size_t)k, "flat index enumerates the elements, first coordinate fastest");
  if (how == 0) m(d) = v; if (how == 1) m((uint32_t)d.x, (uint32_t)d.y, (uint32_t)d.z) = v; if (how == 2) m[k] = v; if (how == 3) { std::vector<double> l(n, 5.0); l[((size_t)d.z * X + d.x) * Y + d.y] = v; m.setEntries(std::move(l)); }
  for (int i : {0, 4463, 4464, 65535, 65536, 65537, n - 1}) { dim3 e = posOf(i, X, Y); sym_close(c[i], i == k ? v : 5.0, "a write changes the addressed element and no other"); sym_assert(&c(e) == &c[i] && &m((uint32_t)e.x, (uint32_t)e.y, (uint32_t)e.z) == &c[i], "coordinate forms agree"); }
  sym_reach("huge");
}
