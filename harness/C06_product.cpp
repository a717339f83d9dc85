//@ entry c06_product reach=product,mismatch
//@ entry c06_forms reach=views,temporaries,nested,slices
//@ entry c06_int reach=int
//@ entry c06_wide reach=product,views,temporaries,nested,slices
//@ entry c06_exact fp=ieee reach=exact
//@ entry c06_huge reach=huge
//@ bounds quick: operands up to 3x3 with up to 2 layers; values symbolic reals; c06_wide: (5x7)(7x6) with 3 layers, (1x20)(20x1), (9x1)(1x9), (3x17)(17x2), (1x300)(300x1), (300x1)(1x2), (2x1)(1x300), 300 layers of (1x2)(2x1); c06_exact: IEEE doubles, (2x3)(3x2) of zeros and ones with any double of magnitude 1e-200 to 1e200 at any place; c06_huge: (1x70000)(70000x1), (70000x1)(1x2), (2x1)(1x70000), one element symbolic
//@ bounds thorough: operands up to 4x4 with up to 3 layers
#include "mx.h"
template <class A, class B> double prod(const Ref<A> &a, const Ref<B> &b, int i, int j, int z) { double s = 0; for (int k = 0; k < a.Y; k++) s += a.at(i, k, z) * b.at(k, j, z); return s; }
static void product(int X, int Y, int Z, int P, int Q, int S) {
  bool ok = Y == P && Z == S;
  if (!ok) { SimpleMatrix<double> A(dim3(X, Y, Z)), B(dim3(P, Q, S)); sym_assert(rejects([&] { auto r = my_cnn::matrixMultiply(A, B); }), "operands whose sizes do not match are rejected"); sym_reach("mismatch"); return; }
  Ref<double> a = symRef<double>("a", X, Y, Z), b = symRef<double>("b", P, Q, S);
  SimpleMatrix<double> A = toMatrix(a), B = toMatrix(b);
  auto e = my_cnn::matrixMultiply(A, B); SimpleMatrix<double> R = e;
  sym_assert(e.dim() == dim3(X, Q, Z) && R.dim() == dim3(X, Q, Z), "size of the product");
  for (int z = 0; z < Z; z++) for (int i = 0; i < X; i++) for (int j = 0; j < Q; j++) { sym_close(R(i, j, z), prod(a, b, i, j, z), "each entry is the row times the column"); sym_close(e(i, j, z), prod(a, b, i, j, z), "entries of the unevaluated product"); }
  expectSame(A, a, "operands are not changed"); expectSame(B, b, "operands are not changed");
  sym_reach("product");
}
ENTRY(c06_product) {
  int N = sym_tier() ? 4 : 3, K = sym_tier() ? 3 : 2;
  int X = sym_dim("X", 1, N), Y = sym_dim("Y", 1, N), Z = sym_dim("Z", 1, K), P = sym_dim("P", 1, N), Q = sym_dim("Q", 1, N), S = sym_dim("S", 1, K); product(X, Y, Z, P, Q, S);
}
static void forms(int X, int Y, int Q, int Z) { // the same product over views, temporaries, nested expressions and slices
  int how = sym_dim("how", 0, 3);
  Ref<double> a = symRef<double>("a", X, Y, Z), b = symRef<double>("b", Y, Q, Z), c = symRef<double>("c", X, Y, Z);
  SimpleMatrix<double> A = toMatrix(a), B = toMatrix(b), C = toMatrix(c), R;
  if (how == 0) { R = my_cnn::matrixMultiply(A.subMatView(dim3(0, 0, 0), dim3(X, Y, Z)), B.subMatView(dim3(0, 0, 0), dim3(Y, Q, Z))); sym_reach("views"); }
  else if (how == 1) { auto e = my_cnn::matrixMultiply(toMatrix(a), toMatrix(b)); sym_assert(e.dim() == dim3(X, Q, Z), "size"); R = e; sym_reach("temporaries"); }
  else if (how == 2) { R = my_cnn::matrixMultiply(A + C, B); for (size_t i = 0; i < a.v.size(); i++) a.v[i] += c.v[i]; sym_reach("nested"); }
  else { R = my_cnn::matrixMultiply(A.slice(Z - 1), B.slice(Z - 1)); sym_reach("slices"); }
  for (int z = 0; z < (how == 3 ? 1 : Z); z++) for (int i = 0; i < X; i++) for (int j = 0; j < Q; j++) sym_close(R(i, j, z), prod(a, b, i, j, how == 3 ? Z - 1 : z), "each entry is the row times the column");
}
ENTRY(c06_forms) { int N = sym_tier() ? 3 : 2, X = sym_dim("X", 1, N), Y = sym_dim("Y", 1, N), Q = sym_dim("Q", 1, N), Z = sym_dim("Z", 1, 2); forms(X, Y, Q, Z); }
ENTRY(c06_wide) {
  static const int s[8][4] = {{5, 7, 6, 3}, {1, 20, 1, 1}, {9, 1, 9, 1}, {3, 17, 2, 2}, {1, 300, 1, 1}, {300, 1, 2, 1}, {2, 1, 300, 1}, {1, 2, 1, 300}}; int k = sym_dim("wide", 0, 7); const int *d = s[k];
  if (sym_dim("form", 0, 1)) forms(d[0], d[1], d[2], d[3]); else product(d[0], d[1], d[3], d[1], d[2], d[3]);
}
ENTRY(c06_int) { // integer products wrap nowhere within the stated value range
  int X = sym_dim("X", 1, 2), Y = sym_dim("Y", 1, 2), Q = sym_dim("Q", 1, 2);
  Ref<int> a(X, Y, 1), b(Y, Q, 1); for (auto &e : a.v) e = sym_int("a", -5, 5); for (auto &e : b.v) e = sym_int("b", -5, 5);
  SimpleMatrix<int> A = toMatrix(a), B = toMatrix(b), R = my_cnn::matrixMultiply(A, B);
  for (int i = 0; i < X; i++) for (int j = 0; j < Q; j++) { int s = 0; for (int k = 0; k < Y; k++) s += a.at(i, k, 0) * b.at(k, j, 0); sym_assert(R(i, j) == s, "integer product"); }
  Ref<double> d = symRef<double>("d", Y, Q, 1), e = symRef<double>("e", X, Y, 1); SimpleMatrix<double> D = toMatrix(d), E = toMatrix(e), F = my_cnn::matrixMultiply(A, D), G = my_cnn::matrixMultiply(E, B); // the wider type wins on either side
  for (int i = 0; i < X; i++) for (int j = 0; j < Q; j++) { sym_close(F(i, j), prod(a, d, i, j, 0), "integers times reals"); sym_close(G(i, j), prod(e, b, i, j, 0), "reals times integers"); }
  sym_reach("int");
}
ENTRY(c06_exact) { // one element of any value, the others zero or one: nothing is rounded
  bool left = sym_fork(sym_bool("left")); int i = sym_dim("i", 0, left ? 1 : 2), j = sym_dim("j", 0, left ? 2 : 1); double v = fullDouble("v"); SimpleMatrix<double> A(dim3(2, 3, 1), left ? 0.0 : 1.0), B(dim3(3, 2, 1), left ? 1.0 : 0.0);
  (left ? A : B)(i, j) = v; SimpleMatrix<double> R = my_cnn::matrixMultiply(A, B); for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) sym_assert(R(x, y) == ((left ? x == i : y == j) ? v : 0.0), "a product with zeros and ones is exact"); sym_reach("exact");
}
ENTRY(c06_huge) { // sums over more elements than 16 bits can count, and results with that many
  int how = sym_dim("how", 0, 2), n = 70000, k = hugePos(n); double v = sym_double("v"); SimpleMatrix<double> A(how == 0 ? dim3(1, n, 1) : how == 1 ? dim3(n, 1, 1) : dim3(2, 1, 1), 2.0), B(how == 0 ? dim3(n, 1, 1) : how == 1 ? dim3(1, 2, 1) : dim3(1, n, 1), 3.0); (how == 2 ? B : A)[k] = v; SimpleMatrix<double> R = my_cnn::matrixMultiply(A, B);
  sym_assert(R.dim() == (how == 0 ? dim3(1, 1, 1) : how == 1 ? dim3(n, 2, 1) : dim3(2, n, 1)), "size of the product"); if (how == 0) sym_close(R[0], 3 * v + 6.0 * (n - 1), "each entry is the row times the column"); else for (int i : {0, 4463, 4464, 65535, 65536, 65537, n - 1}) sym_close(how == 1 ? R(i, 1) : R(1, i), i == k ? (how == 1 ? 3 * v : 2 * v) : 6.0, "each entry is the row times the column"); sym_reach("huge");
}
