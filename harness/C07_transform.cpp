//@ entry c07_transpose reach=lvalue,temporary,view,expr
//@ entry c07_rotate reach=1,2,3,rejected
//@ entry c07_group reach=group
//@ entry c07_exact fp=ieee reach=exact
//@ entry c07_huge reach=huge
//@ bounds quick: matrices up to 3x3x2, and the shapes 9x5x3, 1x33x3, 7x5x4, 7x7x4, 1x300x1, 1x2x300, 18x18x4, 2x2x300; values symbolic; c07_exact: any IEEE double of magnitude 1e-200 to 1e200; c07_huge: 7 shapes of 67600 to 138000 elements, one of them symbolic
//@ bounds thorough: matrices up to 5x5x3
#include "mx.h"
ENTRY(c07_transpose) {
  int N = sym_tier() ? 5 : 3, K = sym_tier() ? 3 : 2, wide = sym_dim("wide", 0, 4), X = wide == 1 ? 9 : wide ? 1 : sym_dim("X", 0, N), Y = wide == 1 ? 5 : wide == 2 ? 33 : wide == 3 ? 300 : wide ? 2 : sym_dim("Y", 1, N), Z = wide == 4 ? 300 : wide == 3 ? 1 : wide ? 3 : sym_dim("Z", 1, K), how = sym_dim("how", 0, 3);
  Ref<double> a = symRef<double>("a", X, Y, Z); SimpleMatrix<double> A = toMatrix(a), R;
  if (how == 0) { auto e = my_cnn::transpose(A); sym_assert(e.dim() == dim3(Y, X, Z), "size of the transpose"); R = e; sym_reach("lvalue"); }
  else if (how == 1) { auto e = my_cnn::transpose(toMatrix(a)); sym_assert(e.dim() == dim3(Y, X, Z), "size of the transpose"); R = e; sym_reach("temporary"); }
  else if (how == 2) { R = my_cnn::transpose(A.subMatView(dim3(0, 0, 0), dim3(X, Y, Z))); sym_reach("view"); }
  else { R = my_cnn::transpose(A + 0.0); sym_reach("expr"); }
  sym_assert(R.dim() == dim3(Y, X, Z), "size of the transpose");
  EACH(a, x, y, z) sym_close(R(y, x, z), a.at(x, y, z), "transposing swaps rows and columns in every layer");
  SimpleMatrix<double> T = my_cnn::transpose(my_cnn::transpose(A)); expectSame(T, a, "transposing twice is the identity");
}
ENTRY(c07_rotate) {
  int N = sym_tier() ? 5 : 3, K = sym_tier() ? 3 : 2, wide = sym_dim("wide", 0, 4), X = wide == 3 ? 18 : wide == 4 ? 2 : wide ? 7 : sym_dim("X", 1, N), Y = wide == 1 ? 5 : wide == 2 ? 7 : wide == 3 ? 18 : wide ? 2 : sym_dim("Y", 1, N), Z = wide == 4 ? 300 : wide ? 4 : sym_dim("Z", 1, K), k = sym_dim("k", 1, 3); bool tmp = sym_fork(sym_bool("tmp"));
  Ref<double> a = symRef<double>("a", X, Y, Z); SimpleMatrix<double> A = toMatrix(a), R;
  bool rej = rejects([&] { if (tmp) { if (k == 1) R = my_cnn::rotate<1>(toMatrix(a)); else if (k == 2) R = my_cnn::rotate<2>(toMatrix(a)); else R = my_cnn::rotate<3>(toMatrix(a)); }
    else if (k == 1) R = my_cnn::rotate<1>(A); else if (k == 2) R = my_cnn::rotate<2>(A); else R = my_cnn::rotate<3>(A); });
  sym_assert(rej == (k != 2 && X != Y), "quarter turns need a square matrix");
  expectSame(A, a, "the source is not changed");
  if (rej) { sym_reach("rejected"); return; }
  sym_assert(R.dim() == dim3(X, Y, Z), "a rotation keeps the size");
  EACH(a, x, y, z) {
    double e = k == 2 ? a.at(X - 1 - x, Y - 1 - y, z) : k == 1 ? a.at(Y - 1 - y, x, z) : a.at(y, X - 1 - x, z);
    sym_close(R(x, y, z), e, "rotation moves each element to its place");
  }
  sym_reach(k == 1 ? "1" : k == 2 ? "2" : "3");
}
ENTRY(c07_group) { // compositions
  int N = sym_tier() ? 4 : 3, X = sym_dim("X", 1, N), Z = sym_dim("Z", 1, 2);
  Ref<double> a = symRef<double>("a", X, X, Z); SimpleMatrix<double> A = toMatrix(a);
  SimpleMatrix<double> r1 = my_cnn::rotate<1>(A), r2 = my_cnn::rotate<2>(A), r3 = my_cnn::rotate<3>(A), r11 = my_cnn::rotate<1>(r1), r13 = my_cnn::rotate<3>(r1), r31 = my_cnn::rotate<1>(my_cnn::rotate<3>(A)), r12 = my_cnn::rotate<2>(r1), r22 = my_cnn::rotate<2>(r2);
  EACH(a, x, y, z) { sym_close(r11(x, y, z), r2(x, y, z), "two quarter turns are a half turn"); sym_close(r12(x, y, z), r3(x, y, z), "a quarter and a half turn are three quarters"); sym_close(r13(x, y, z), a.at(x, y, z), "opposite turns cancel"); sym_close(r31(x, y, z), a.at(x, y, z), "opposite turns cancel"); sym_close(r22(x, y, z), a.at(x, y, z), "two half turns cancel"); }
  sym_reach("group");
}
ENTRY(c07_exact) { // permuting keeps every bit
  int at = sym_dim("at", 0, 3), how = sym_dim("how", 0, 3), x = at % 2, y = at / 2; double v = fullDouble("v"); SimpleMatrix<double> m(dim3(2, 2, 1), 1.0), r; m[at] = v; if (how == 0) r = my_cnn::transpose(m); if (how == 1) r = my_cnn::transpose(my_cnn::rotate<1>(m)); if (how == 2) r = my_cnn::rotate<2>(m); if (how == 3) r = my_cnn::transpose(my_cnn::rotate<3>(m));
  double s = 0; int n = 0; for (int i = 0; i < 4; i++) if (how == 0 ? i == x * 2 + y : how == 2 ? i == (1 - y) * 2 + 1 - x : false) sym_assert(r[i] == v, "a permuted element is exact"); else if (r[i] == v) n++; (void)s; if (how % 2) sym_assert(n >= 1, "a permuted element is exact"); sym_reach("exact");
}
ENTRY(c07_huge) { // more elements than 16 bits can count
  HUGE_SHAPE; int n = X * Y * Z, k = hugePos(n); bool rot = sym_fork(sym_bool("rot")); double v = sym_double("v"); SimpleMatrix<double> A(dim3(X, Y, Z), 5.0), R; A[k] = v; if (rot) R = my_cnn::rotate<2>(A); else R = my_cnn::transpose(A);
  sym_assert(R.dim() == (rot ? dim3(X, Y, Z) : dim3(Y, X, Z)), "size of the result"); for (int i : {0, 4463, 4464, 65535, 65536, 65537, n - 1}) { dim3 d = posOf(i, X, Y); sym_close(rot ? R(dim3(X - 1 - d.x, Y - 1 - d.y, d.z)) : R(dim3(d.y, d.x, d.z)), i == k ? v : 5.0, "every element moves to its place"); } sym_reach("huge");
}
