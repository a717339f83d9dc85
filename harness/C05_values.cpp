//@ entry c05_copy reach=copied
//@ entry c05_move reach=moved
//@ entry c05_convert reach=convert
//@ entry c05_self reach=self
//@ entry c05_from reach=from
//@ entry c05_exact fp=ieee reach=exact
//@ entry c05_huge reach=huge
//@ bounds quick: source shapes up to 3x2x2 (including empty) assigned to destinations up to 2x2x2, and pairs of shapes up to 9x5x3, 4x7x5, 1x300x1 and 1x1x300; c05_exact: any IEEE double of magnitude 1e-200 to 1e200; c05_huge: 1x70000x1 and 2x260x130, one element symbolic
//@ bounds thorough: source shapes up to 3x3x3, destinations up to 3x3x2; the huge entry with 7 shapes
#include "mx.h"
struct Pair { int X, Y, Z, P, Q, S; };
static Pair shapes() { // every small pair, and a few large ones
  int w = sym_dim("wide", 0, 5); if (w == 4) return {1, 300, 1, 2, 1, 1}; if (w == 5) return {1, 2, 1, 1, 1, 300}; if (w == 1) return {9, 5, 3, 1, 2, 2}; if (w == 2) return {2, 1, 1, 4, 7, 5}; if (w == 3) return {4, 7, 5, 5, 7, 4};
  int N = sym_tier() ? 3 : 2, X = sym_dim("X", 0, 3), Y = sym_dim("Y", 1, N), Z = sym_dim("Z", 1, N), P = sym_dim("P", 0, N), Q = sym_dim("Q", 1, 2), S = sym_dim("S", 1, 2); return {X, Y, Z, P, Q, S};
}
#define SHAPE Pair S_ = shapes(); int X = S_.X, Y = S_.Y, Z = S_.Z, P = S_.P, Q = S_.Q, S = S_.S
ENTRY(c05_copy) { // copies are equal and independent, whatever the destination held before
  SHAPE; bool ctor = sym_fork(sym_bool("ctor"));
  Ref<double> a = symRef<double>("a", X, Y, Z), b = symRef<double>("b", P, Q, S);
  SimpleMatrix<double> A = toMatrix(a), B = toMatrix(b);
  if (ctor) { SimpleMatrix<double> C(A); expectSame(C, a, "a copy equals its source"); if (C.size()) C[0] = 5; expectSame(A, a, "changing a copy leaves the source alone"); }
  else {
    B = A; expectSame(B, a, "an assigned matrix equals its source"); sym_assert(B.size() == (size_t)(X * Y * Z), "size after assignment");
    if (B.size()) { double w = sym_double("w"); int i = X * Y * Z > 30 ? X * Y * Z - 2 : sym_fork(sym_int("i", 0, X * Y * Z - 1)); B[i] = w; expectSame(A, a, "changing a copy leaves the source alone"); A[i] = w + 1; sym_close(B[i], w, "changing the source leaves a copy alone"); }
    SimpleMatrix<double> &al = B; Ref<double> now = a; if (B.size()) EACH(now, x, y, z) now.at(x, y, z) = B(x, y, z);
    B = al; expectSame(B, now, "self assignment keeps the value");
  }
  sym_reach("copied");
}
ENTRY(c05_move) {
  SHAPE; bool ctor = sym_fork(sym_bool("ctor"));
  Ref<double> a = symRef<double>("a", X, Y, Z), b = symRef<double>("b", P, Q, S);
  SimpleMatrix<double> A = toMatrix(a), B = toMatrix(b);
  if (ctor) { SimpleMatrix<double> C(std::move(A)); expectSame(C, a, "a moved-to matrix holds the value"); } else { B = std::move(A); expectSame(B, a, "a moved-to matrix holds the value"); }
  sym_assert((size_t)A.dim().x * A.dim().y * A.dim().z == A.size() && rejects([&] { A = std::vector<double>(A.size() + 1); }), "a moved-from matrix is consistent");
  size_t n = 0; for (auto it = A.begin(); it != A.end(); ++it) { *it = 1; n++; } sym_assert(n == A.size(), "a moved-from matrix can be iterated");
  A = toMatrix(b); expectSame(A, b, "a moved-from matrix can be assigned again");
  sym_reach("moved");
}
ENTRY(c05_convert) { // element type conversion
  SHAPE;
  Ref<int> a(X, Y, Z); for (auto &e : a.v) e = sym_int("a", -8, 8); Ref<double> b = symRef<double>("b", P, Q, S);
  SimpleMatrix<int> A = toMatrix(a); SimpleMatrix<double> B = toMatrix(b);
  SimpleMatrix<float> C(A), E = A + A; SimpleMatrix<double> D = A;
  const SimpleMatrix<int> &cA = A; if (sym_fork(sym_bool("const"))) B = cA; else B = A;
  sym_assert(B.dim() == dim3(X, Y, Z) && C.dim() == dim3(X, Y, Z) && D.dim() == dim3(X, Y, Z) && E.dim() == dim3(X, Y, Z), "conversion keeps the size");
  EACH(a, x, y, z) { double w = a.at(x, y, z); sym_close(B(x, y, z), w, "assignment converts each element"); sym_close(C(x, y, z), w, "construction converts each element"); sym_close(D(x, y, z), w, "construction converts each element"); sym_close(E(x, y, z), 2 * w, "an expression converts each element"); }
  expectConsistent(B); expectConsistent(C); expectConsistent(D); expectConsistent(E);
  sym_reach("convert");
}
ENTRY(c05_self) { // an expression that mentions the destination is evaluated before it is overwritten
  int N = sym_tier() ? 3 : 2, kind = sym_dim("kind", 0, 6), wide = sym_dim("wide", 0, 1), X = wide ? 7 : sym_dim("X", 1, 3), Y = wide ? 5 : sym_dim("Y", 1, N), Z = wide ? kind == 6 ? 1 : 3 : sym_dim("Z", 1, 2);
  Ref<double> a = symRef<double>("a", X, Y, Z); SimpleMatrix<double> A = toMatrix(a);
  if (kind == 0) { A = my_cnn::transpose(A); sym_assert(A.dim() == dim3(Y, X, Z), "size"); EACH(a, x, y, z) sym_close(A(y, x, z), a.at(x, y, z), "a matrix can be assigned its own transpose"); }
  else if (kind == 1) { A = my_cnn::rotate<2>(A); EACH(a, x, y, z) sym_close(A(X - 1 - x, Y - 1 - y, z), a.at(x, y, z), "a matrix can be assigned its own rotation"); }
  else if (kind == 2) { A = A.subMatView(dim3(X - 1, 0, 0), dim3(1, Y, Z)); sym_assert(A.dim() == dim3(1, Y, Z), "size"); for (int z = 0; z < Z; z++) for (int y = 0; y < Y; y++) sym_close(A(0, y, z), a.at(X - 1, y, z), "a matrix can be assigned a part of itself"); }
  else if (kind == 3) { A = my_cnn::matrixMultiply(A, my_cnn::transpose(A)); for (int z = 0; z < Z; z++) for (int i = 0; i < X; i++) for (int j = 0; j < X; j++) { double s = 0; for (int k = 0; k < Y; k++) s += a.at(i, k, z) * a.at(j, k, z); sym_close(A(i, j, z), s, "a matrix can be assigned a product with itself"); } }
  else if (kind == 4) { A = A * A + A; EACH(a, x, y, z) sym_close(A(x, y, z), a.at(x, y, z) * a.at(x, y, z) + a.at(x, y, z), "a matrix can be assigned an expression of itself"); }
  else if (kind == 5) { A = A.slice(Z - 1); sym_assert(A.dim() == dim3(X, Y, 1), "size"); for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) sym_close(A(x, y), a.at(x, y, Z - 1), "a matrix can be assigned one of its layers"); }
  else { SimpleMatrix<double> k(dim3(1, 1, 1), 2.0); if (Z == 1) { A = my_cnn::convolve(A, k, dim2(1, 1)); EACH(a, x, y, z) sym_close(A(x, y, z), 2 * a.at(x, y, z), "a matrix can be assigned its own convolution"); } }
  expectConsistent(A); sym_reach("self");
}
ENTRY(c05_from) { // construction and assignment from views and expressions takes a snapshot
  SHAPE; int kind = sym_dim("kind", 0, 3);
  Ref<double> a = symRef<double>("a", X, Y, Z), b = symRef<double>("b", P, Q, S);
  SimpleMatrix<double> A = toMatrix(a), B = toMatrix(b); const SimpleMatrix<double> &cA = A;
  Ref<double> w = a;
  if (kind == 0) B = A.subMatView(dim3(0, 0, 0), dim3(X, Y, Z));
  else if (kind == 1) { B = A + 1.0; for (auto &e : w.v) e += 1; }
  else if (kind == 2) { SimpleMatrix<double> t(cA.subMatView(dim3(0, 0, 0), dim3(X, Y, Z))); B = t; }
  else { SimpleMatrix<double> t = A * A; B = std::move(t); for (auto &e : w.v) e *= e; }
  if (A.size()) A[0] = 1234;
  expectSame(B, w, "the result is independent of its source");
  sym_reach("from");
}
ENTRY(c05_exact) { // copies keep every bit; conversions are those of the element
  int how = sym_dim("how", 0, 8); double v = fullDouble("v"); SimpleMatrix<double> m(dim3(1, 2, 1), 1.0), r(dim3(2, 1, 1), 4.0); m[1] = v; const SimpleMatrix<double> &c = m;
  if (how == 0) r = m; if (how == 1) r = SimpleMatrix<double>(c); if (how == 2) { SimpleMatrix<double> t(m); r = std::move(t); } if (how == 3) r = m * 1.0; if (how == 4) r = c.subMatView(dim3(0, 0, 0), dim3(1, 2, 1)); if (how == 5) r = SimpleMatrix<double>(m.subMatView(dim3(0, 0, 0), dim3(1, 2, 1))); if (how == 6) r = SimpleMatrix<double>(m + 0.0);
  if (how < 7) { sym_assert(r.dim() == m.dim() && r[1] == v && r[0] == 1.0, "a copy is exact"); sym_reach("exact"); return; }
  if (how == 7) { SimpleMatrix<float> f = m; sym_assert(f[1] == (float)v, "conversion to float is that of the element"); r = f; sym_assert(r[1] == (double)(float)v, "conversion from float is exact"); } else { SimpleMatrix<int> i = m; sym_assert(i[1] == (int)v, "conversion to integers is that of the element"); }
}
ENTRY(c05_huge) { // more elements than 16 bits can count
  HUGE_FEW; int n = X * Y * Z, k = fewPos(n), how = sym_dim("how", 0, 4); double v = sym_double("v"); SimpleMatrix<double> A(dim3(X, Y, Z), 5.0), R(dim3(2, 1, 1), 1.0); A[k] = v; if (how == 0) R = A; else if (how == 1) { SimpleMatrix<double> T(A); R = std::move(T); } else if (how == 2) R = A.subMatView(dim3(0, 0, 0), A.dim()); else if (how == 3) R = A + 0.0; else { SimpleMatrix<double> T(A * 1.0); R = T; }
  sym_assert(R.dim() == dim3(X, Y, Z) && R.size() == (size_t)n, "size after assignment"); for (int i : {0, 4463, 4464, 65535, 65536, 65537, n - 1}) sym_close(R[i], i == k ? v : 5.0, "a copy equals its source"); R[k] = 9; sym_close(A[k], v, "changing a copy leaves the source alone"); sym_reach("huge");
}
