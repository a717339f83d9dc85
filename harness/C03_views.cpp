//@ entry c03_create reach=accepted,rejected
//@ entry c03_nested reach=accepted,rejected
//@ entry c03_slices reach=accepted,rejected
//@ entry c03_alias reach=aliased
//@ entry c03_at reach=in,out
//@ entry c03_assign reach=assigned,mismatch
//@ entry c03_wide reach=aliased,assigned,mismatch
//@ entry c03_exact fp=ieee reach=exact
//@ entry c03_huge reach=huge
//@ bounds quick: start and size components symbolic over all 32-bit integers for acceptance; aliasing on every sub-view of a 3x3x2 matrix; c03_wide: regions of size 9x5x3, 1x33x1, 18x1x2 and 4x7x5 inside larger matrices; c03_exact: any IEEE double of magnitude 1e-200 to 1e200; c03_huge: 7 shapes of 67600 to 138000 elements, one of them symbolic
//@ bounds thorough: aliasing on every sub-view of a 4x4x3 matrix
#include "mx.h"
static int anyInt(const char *n) { return sym_int(n, -2147483647 - 1, 2147483647); }
ENTRY(c03_create) { // a view is accepted exactly when its region lies inside the matrix
  int X = sym_dim("X", 0, 3), Y = sym_dim("Y", 1, 2), Z = sym_dim("Z", 1, 2);
  SimpleMatrix<float> m(dim3(X, Y, Z));
  const SimpleMatrix<float> &cm = m;
  int a = anyInt("a"), b = anyInt("b"), c = anyInt("c"), p = anyInt("p"), q = anyInt("q"), s = anyInt("s");
  auto in = [](long st, long n, long lim) { return (st >= 0) & (n >= 0) & (st + n <= lim); };
  bool fits = in(a, p, X) & in(b, q, Y) & in(c, s, Z);
  bool rej = rejects([&] { auto v = m.subMatView(dim3(a, b, c), dim3(p, q, s)); sym_assert(v.dim().x == p && v.dim().y == q && v.dim().z == s, "size of the view"); });
  sym_assert(rej == !fits, "a view is created exactly when its region lies inside the matrix");
  bool rejc = rejects([&] { auto v = cm.subMatView(dim3(a, b, c), dim3(p, q, s)); });
  sym_assert(rejc == !fits, "a read-only view is created exactly when its region lies inside the matrix");
  if (!fits) sym_assert(rejects([&] { auto v = m.subMatCopy(dim3(a, b, c), dim3(p, q, s)); }), "copying a region outside the matrix is rejected");
  if (fits) sym_reach("accepted"); else sym_reach("rejected");
}
ENTRY(c03_nested) { // a view of a view must lie inside the outer view
  SimpleMatrix<float> m(dim3(4, 3, 3));
  int a = sym_dim("a", 0, 2), b = sym_dim("b", 0, 1), c = sym_dim("c", 0, 1);
  SubMatrixView<float> o = m.subMatView(dim3(a, b, c), dim3(2, 2, 2));
  int d = anyInt("d"), e = anyInt("e"), f = anyInt("f"), p = anyInt("p"), q = anyInt("q"), s = anyInt("s");
  auto in = [](long st, long n, long lim) { return (st >= 0) & (n >= 0) & (st + n <= lim); };
  bool fits = in(d, p, 2) & in(e, q, 2) & in(f, s, 2);
  bool rej = rejects([&] { SubMatrixView<float> v(o, dim3(d, e, f), dim3(p, q, s)); });
  sym_assert(rej == !fits, "a nested view is created exactly when it lies inside the outer view");
  if (fits) {
    d = sym_fork(d); e = sym_fork(e); f = sym_fork(f); p = sym_fork(p); q = sym_fork(q); s = sym_fork(s);
    SubMatrixView<float> v(o, dim3(d, e, f), dim3(p, q, s));
    for (int z = 0; z < s; z++) for (int y = 0; y < q; y++) for (int x = 0; x < p; x++)
      sym_assert(&v(dim3(x, y, z)) == &m(a + d + x, b + e + y, c + f + z), "a nested view addresses the matrix through both offsets");
    sym_reach("accepted");
  } else sym_reach("rejected");
}
ENTRY(c03_slices) {
  int X = 2, Y = 3, Z = sym_tier() ? 4 : 3;
  SimpleMatrix<float> m(dim3(X, Y, Z)); const SimpleMatrix<float> &cm = m;
  int i = anyInt("i"), n = anyInt("n"); bool one = sym_fork(sym_bool("one"));
  if (one) n = 1;
  bool fits = (i >= 0) & (n >= 0) & ((long)i + n <= Z);
  bool rej = rejects([&] { auto v = one ? m.slice(i) : m.slices(i, n); }), rejc = rejects([&] { auto v = one ? cm.slice(i) : cm.slices(i, n); });
  sym_assert(rej == !fits && rejc == !fits, "slices are created exactly when the layers exist");
  if (!fits) { sym_reach("rejected"); return; }
  i = sym_fork(i); n = sym_fork(n);
  auto v = one ? m.slice(i) : m.slices(i, n); auto cv = one ? cm.slice(i) : cm.slices(i, n);
  sym_assert(v.dim() == dim3(X, Y, n) && cv.dim() == dim3(X, Y, n), "slices span the whole layer");
  for (int z = 0; z < n; z++) for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) sym_assert(&v(dim3(x, y, z)) == &m(x, y, i + z) && &cv(dim3(x, y, z)) == &m(x, y, i + z), "slices address the layers asked for");
  // slices of a view
  int a = sym_dim("a", 0, Z - 1), h = sym_fork(sym_int("h", 1, Z - a)), j = anyInt("j"), k = anyInt("k");
  auto o = m.subMatView(dim3(1, 1, a), dim3(1, 2, h));
  bool f2 = (j >= 0) & (k >= 0) & ((long)j + k <= h);
  sym_assert(rejects([&] { auto w = o.slices(j, k); }) == !f2, "slices of a view stay inside the view");
  if (f2) { j = sym_fork(j); k = sym_fork(k); auto w = o.slices(j, k); sym_assert(w.dim() == dim3(1, 2, k), "size of slices of a view"); for (int z = 0; z < k; z++) for (int y = 0; y < 2; y++) sym_assert(&w(dim3(0, y, z)) == &m(1, 1 + y, a + j + z), "slices of a view address the matrix"); }
  sym_reach("accepted");
}
static void alias(int X, int Y, int Z, int a, int b, int c, int p, int q, int s) { // reads see the matrix, writes reach it, copies do not
  Ref<double> r = symRef<double>("v", X, Y, Z);
  SimpleMatrix<double> m = toMatrix(r); const SimpleMatrix<double> &cm = m;
  SubMatrixView<double> v = m.subMatView(dim3(a, b, c), dim3(p, q, s)); auto cv = cm.subMatView(dim3(a, b, c), dim3(p, q, s)); const SubMatrixView<double> &kv = v; const SubMatrixView<const double> &kc = cv;
  SimpleMatrix<double> k = m.subMatCopy(dim3(a, b, c), dim3(p, q, s));
  sym_assert(v.dim() == dim3(p, q, s) && k.dim() == dim3(p, q, s) && v.size() == (size_t)(p * q * s), "size of views and copies of a region");
  for (int z = 0; z < s; z++) for (int y = 0; y < q; y++) for (int x = 0; x < p; x++) {
    double e = r.at(a + x, b + y, c + z);
    sym_close(v(dim3(x, y, z)), e, "a view reads the matrix"); sym_close(v(x, y, z), e, "a view reads the matrix by coordinates"); sym_close(cv(x, y, z), e, "a read-only view reads the matrix"); sym_close(cv(dim3(x, y, z)), e, "a read-only view reads the matrix"); sym_close(kv(x, y, z), e, "a constant view reads the matrix"); sym_close(kv(dim3(x, y, z)), e, "a constant view reads the matrix"); sym_close(kc(x, y, z), e, "a constant read-only view reads the matrix"); sym_close(kc(dim3(x, y, z)), e, "a constant read-only view reads the matrix"); sym_close(kv.at(dim3(x, y, z)), e, "a constant view reads the matrix"); sym_close(k(x, y, z), e, "a copied region holds the values");
  }
  int tx = X > 4 ? p - 1 : sym_fork(sym_int("tx", 0, p - 1)), ty = X > 4 ? q / 2 : sym_fork(sym_int("ty", 0, q - 1)), tz = sym_fork(sym_int("tz", 0, s - 1));
  double w = sym_double("w");
  if (sym_fork(sym_bool("form"))) v(dim3(tx, ty, tz)) = w; else v(tx, ty, tz) = w;
  EACH(r, x, y, z) sym_close(m(x, y, z), x == a + tx && y == b + ty && z == c + tz ? w : r.at(x, y, z), "a write through a view changes exactly that element of the matrix");
  sym_close(cv(tx, ty, tz), w, "a view sees later changes of the matrix");
  sym_close(k(tx, ty, tz), r.at(a + tx, b + ty, c + tz), "a copied region is independent of the matrix");
  sym_reach("aliased");
}
ENTRY(c03_alias) {
  int X = sym_tier() ? 4 : 3, Y = 3, Z = 2, a = sym_dim("a", 0, X - 1), b = sym_dim("b", 0, Y - 1), c = sym_dim("c", 0, Z - 1);
  int p = sym_fork(sym_int("p", 1, X - a)), q = sym_fork(sym_int("q", 1, Y - b)), s = sym_fork(sym_int("s", 1, Z - c)); alias(X, Y, Z, a, b, c, p, q, s);
}
ENTRY(c03_at) { // checked access
  SimpleMatrix<float> m(dim3(4, 3, 2)); const SimpleMatrix<float> &cm = m;
  int a = sym_dim("a", 0, 1), b = sym_dim("b", 0, 1), p = sym_dim("p", 0, 3), q = sym_dim("q", 0, 2), s = sym_dim("s", 0, 2);
  auto v = m.subMatView(dim3(a, b, 0), dim3(p, q, s)); const auto cv = cm.subMatView(dim3(a, b, 0), dim3(p, q, s));
  int x = anyInt("x"), y = anyInt("y"), z = anyInt("z");
  bool ok = (x >= 0) & (y >= 0) & (z >= 0) & (x < p) & (y < q) & (z < s);
  const float *f = nullptr, *g = nullptr;
  bool r1 = rejects([&] { f = &v.at(dim3(x, y, z)); }), r2 = rejects([&] { g = &cv.at(dim3(x, y, z)); });
  sym_assert(r1 == !ok && r2 == !ok, "checked access rejects exactly the coordinates outside the view");
  if (ok) { sym_assert(f == &m(a + x, b + y, z) && g == f, "checked access addresses the element"); sym_reach("in"); } else sym_reach("out");
}
static void assign(int X, int Y, int Z, int a, int b, int c, int p, int q, int s) { // assigning to a view changes its region only
  Ref<double> r = symRef<double>("v", X, Y, Z);
  SimpleMatrix<double> m = toMatrix(r);
  int kind = sym_dim("kind", 0, 6);
  auto v = m.subMatView(dim3(a, b, c), dim3(p, q, s));
  Ref<double> want = r;
  if (kind == 0) { double w = sym_double("w"); v = w; for (int z = 0; z < s; z++) for (int y = 0; y < q; y++) for (int x = 0; x < p; x++) want.at(a + x, b + y, c + z) = w; }
  else {
    bool mis = sym_fork(sym_bool("mis"));
    int P = p, Q = q, S = s; if (mis) { int ax = sym_dim("axis", 0, 8), d = ax % 3; if (ax < 3) (d == 0 ? P : d == 1 ? Q : S)++; else if (ax < 6) (d == 0 ? P : d == 1 ? Q : S)--; else if (d == 0) std::swap(P, Q); else if (d == 1) std::swap(Q, S); else std::swap(P, S); mis = P != p || Q != q || S != s; }
    Ref<double> t = symRef<double>("w", P, Q, S); SimpleMatrix<double> k = toMatrix(t);
    bool rej;
    double f = 1;
    if (kind == 1) rej = rejects([&] { v = k; });
    else if (kind == 2) { f = 2; rej = rejects([&] { v = k + k; }); }
    else if (kind == 3) rej = rejects([&] { v = k.subMatView(dim3(0, 0, 0), dim3(P, Q, S)); });
    else if (kind == 4) { auto w = k.subMatView(dim3(0, 0, 0), dim3(P, Q, S)); rej = rejects([&] { v = w; }); }
    else if (kind == 5) { const auto w = k.subMatView(dim3(0, 0, 0), dim3(P, Q, S)); rej = rejects([&] { v = w; }); }
    else { const SimpleMatrix<double> &ck = k; rej = rejects([&] { v = ck.subMatView(dim3(0, 0, 0), dim3(P, Q, S)); }); }
    sym_assert(rej == mis, "assigning to a view needs the same size");
    if (!mis) for (int z = 0; z < s; z++) for (int y = 0; y < q; y++) for (int x = 0; x < p; x++) want.at(a + x, b + y, c + z) = f * t.at(x, y, z);
    if (mis) sym_reach("mismatch");
  }
  expectSame(m, want, "assigning to a view writes its region and nothing else");
  sym_assert(m.dim() == dim3(X, Y, Z), "assigning to a view keeps the matrix size");
  sym_reach("assigned");
}
ENTRY(c03_assign) {
  int X = 3, Y = sym_tier() ? 3 : 2, Z = 2, a = sym_dim("a", 0, X - 1), b = sym_dim("b", 0, Y - 1), c = sym_dim("c", 0, Z - 1);
  int p = sym_fork(sym_int("p", 1, X - a)), q = sym_fork(sym_int("q", 1, Y - b)), s = sym_fork(sym_int("s", 1, Z - c)); assign(X, Y, Z, a, b, c, p, q, s);
}
ENTRY(c03_wide) { WIDE; if (X * Y * Z > 200) { if (sym_dim("k", 0, 1)) alias(X + 1, Y + 1, Z + 1, 1, 1, 0, X, Y, Z); else assign(X + 1, Y + 1, Z + 1, 0, 1, 1, X, Y, Z); return; } if (sym_dim("k", 0, 1)) alias(X + 4, Y + 2, Z + 1, 3, 1, 1, X, Y, Z); else assign(X + 4, Y + 2, Z + 1, 3, 1, 1, X, Y, Z); }
ENTRY(c03_exact) { // views keep every bit
  int at = sym_dim("at", 0, 3), how = sym_dim("how", 0, 4); double v = fullDouble("v"); dim3 d(at % 2, at / 2, 0); SimpleMatrix<double> m(dim3(3, 2, 2), 1.0); auto w = m.subMatView(dim3(1, 0, 1), dim3(2, 2, 1)); dim3 D(d.x + 1, d.y, 1);
  if (how == 0) w(d) = v; if (how == 1) w.at(d) = v; if (how == 2) w = v; if (how == 3) { SimpleMatrix<double> s(dim3(2, 2, 1), 2.0); s(d) = v; w = s; } if (how == 4) { SimpleMatrix<double> s(dim3(2, 2, 1), 2.0); s(d) = v; w = s.subMatView(dim3(0, 0, 0), dim3(2, 2, 1)); }
  const SimpleMatrix<double> &c = m; sym_assert(m(D) == v && w(d) == v && w.at(d) == v && c.subMatView(dim3(1, 0, 1), dim3(2, 2, 1))(d) == v, "an element reads back exactly as written"); SimpleMatrix<double> n = w; sym_assert(n(d) == v, "a copy of a view is exact"); sym_reach("exact");
}
ENTRY(c03_huge) { // a region in a matrix with more elements than 16 bits can count
  HUGE_SHAPE; int n = X * Y * Z, k = hugePos(n); dim3 d = posOf(k, X, Y), o(d.x / 2, d.y / 2, d.z / 2), s(X - o.x, Y - o.y, Z - o.z), e = d - o; double v = sym_double("v"), u = sym_double("u"); SimpleMatrix<double> m(dim3(X, Y, Z), 5.0); const SimpleMatrix<double> &c = m; m[k] = v;
  auto w = m.subMatView(o, s); auto cw = c.subMatView(o, s); sym_assert(w.dim() == s && w.size() == (size_t)s.x * s.y * s.z, "size of the view");
  sym_close(w(e), v, "a view reads the matrix"); sym_close(cw(e), v, "a read-only view reads the matrix"); sym_close(w.at(e), v, "checked access addresses the element"); sym_close(m.subMatCopy(d, dim3(1, 1, 1))[0], v, "a copied region holds the values"); sym_close(m.slice(d.z)(dim3(d.x, d.y, 0)), v, "slices address the layers asked for");
  w(e) = u; for (int i : {0, 4463, 4464, 65535, 65536, 65537, n - 1}) sym_close(m[i], i == k ? u : 5.0, "a write through a view changes exactly that element of the matrix");
  sym_assert(rejects([&] { auto b = m.subMatView(o, s + dim3(1, 0, 0)); }) && rejects([&] { auto b = m.subMatView(o + dim3(0, 1, 0), s); }) && rejects([&] { auto b = m.subMatView(o, s + dim3(0, 0, 1)); }), "a view is created exactly when its region lies inside the matrix");
  SimpleMatrix<double> t = w; sym_assert(t.dim() == s, "size of a copied view"); sym_close(t(e), u, "a copied region holds the values"); w = 9.0; sym_assert(m(d) == 9 && m[n - 1] == 9 && (m[0] == (o == dim3(0, 0, 0) ? 9.0 : k == 0 ? u : 5.0)), "assigning to a view writes its region and nothing else"); sym_reach("huge");
}
