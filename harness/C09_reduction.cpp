//@ entry c09_sum reach=sum
//@ entry c09_extrema reach=extrema,tie
//@ entry c09_dot reach=dot,rejected
//@ entry c09_norm reach=norm
//@ entry c09_equal reach=equal,different,size
//@ entry c09_int reach=int
//@ entry c09_wide reach=sum,dot,extrema,equal
//@ entry c09_exact fp=ieee reach=exact
//@ entry c09_huge reach=huge
//@ entry c09_nan fp=ieee reach=nan
//@ bounds quick: up to 6 elements for extrema (all orderings and ties), 3x2x2 otherwise; c09_wide: the shapes 9x5x3, 1x33x1, 18x1x2 and 4x7x5 (extrema: any position, all other elements fixed); c09_exact: IEEE doubles, 4 elements, zero but for any double between 1 and 1e200 at any place; c09_huge: 1x70000x1 and 2x260x130, one element symbolic; c09_nan: a NaN at any place
//@ bounds thorough: up to 8 elements for extrema, 3x3x3 otherwise; the huge entry with 7 shapes
#include <cmath>
#include <limits>
#include "mx.h"
static void sums(int X, int Y, int Z) {
  int how = sym_dim("how", 0, 2);
  Ref<double> a = symRef<double>("a", X, Y, Z); SimpleMatrix<double> A = toMatrix(a);
  double s = 0; for (double d : a.v) s += d;
  if (how == 0) { sym_close(my_cnn::sum(A), s, "sum adds every element once"); sym_close(my_cnn::mean(A), s / (X * Y * Z), "mean divides the sum by the number of elements"); }
  else if (how == 1) { auto v = A.subMatView(dim3(X - 1, 0, 0), dim3(1, Y, Z)); double t = 0; for (int z = 0; z < Z; z++) for (int y = 0; y < Y; y++) t += a.at(X - 1, y, z); sym_close(my_cnn::sum(v), t, "sum over a view adds its region"); sym_close(my_cnn::mean(v), t / (Y * Z), "mean over a view"); }
  else { sym_close(my_cnn::sum(A * 2.0), 2 * s, "sum over an expression"); sym_close(my_cnn::mean(A + A), 2 * s / (X * Y * Z), "mean over an expression"); SimpleMatrix<double> e(dim3(0, Y, Z)); sym_assert(my_cnn::sum(e) == 0, "sum over nothing is zero"); }
  sym_reach("sum");
}
ENTRY(c09_sum) { int N = sym_tier() ? 3 : 2, X = sym_dim("X", 1, 3), Y = sym_dim("Y", 1, N), Z = sym_dim("Z", 1, N); sums(X, Y, Z); }
ENTRY(c09_extrema) {
  int X = sym_dim("X", 1, sym_tier() ? 4 : 3), Y = sym_dim("Y", 1, 2), Z = sym_dim("Z", 1, 2);
  sym_assume(X * Y * Z <= (sym_tier() ? 8 : 6));
  Ref<double> a = symRef<double>("a", X, Y, Z); SimpleMatrix<double> A = toMatrix(a);
  double mx = my_cnn::max(A), mn = my_cnn::min(A); dim3 im = my_cnn::maxIndex(A), in = my_cnn::minIndex(A); size_t fm = A.maxIndex(), fn = A.minIndex();
  sym_assert(im.x >= 0 && im.x < X && im.y >= 0 && im.y < Y && im.z >= 0 && im.z < Z && in.x >= 0 && in.x < X && in.y >= 0 && in.y < Y && in.z >= 0 && in.z < Z, "the position of an extremum lies inside the matrix");
  sym_assert(A(im) == mx && A(in) == mn && fm == A.getIndex(im) && fn == A.getIndex(in), "the extremum is the value at its position");
  bool lo = true, hi = true, firstM = true, firstN = true; size_t i = 0;
  EACH(a, x, y, z) { double d = a.at(x, y, z); hi = hi & (d <= mx); lo = lo & (d >= mn); if (i < fm) firstM = firstM & (d < mx); if (i < fn) firstN = firstN & (d > mn); if (i > fm && d == mx) sym_reach("tie"); i++; }
  sym_assert(hi, "no element exceeds the maximum"); sym_assert(lo, "no element is below the minimum"); sym_assert(firstM && firstN, "ties go to the first element in storage order");
  sym_reach("extrema");
}
ENTRY(c09_dot) {
  static const int shapes[][3] = {{1, 4, 1}, {4, 1, 1}, {1, 6, 1}, {6, 1, 1}, {2, 3, 1}, {3, 2, 1}, {2, 2, 1}, {1, 2, 2}, {2, 1, 3}, {1, 1, 6}, {1, 1, 4}}; int w = sym_dim("listed", -1, 10), X, Y, Z, P, Q, S;
  if (w >= 0) { const int *s = shapes[w], *t = shapes[sym_dim("other", 0, 10)]; X = s[0], Y = s[1], Z = s[2], P = t[0], Q = t[1], S = t[2]; }
  else X = sym_dim("X", 1, 3), Y = sym_dim("Y", 1, 3), Z = sym_dim("Z", 1, 2), P = sym_dim("P", 1, 3), Q = sym_dim("Q", 1, 3), S = sym_dim("S", 1, 2);
  Ref<double> a = symRef<double>("a", X, Y, Z), b = symRef<double>("b", P, Q, S); SimpleMatrix<double> A = toMatrix(a), B = toMatrix(b);
  bool ok = X * Y * Z == P * Q * S && Z == 1 && S == 1 && (X == 1 || Y == 1) && (P == 1 || Q == 1); double r = 0;
  bool rej = rejects([&] { r = my_cnn::dot(A, B); });
  sym_assert(rej == !ok, "the dot product needs two vectors of one length");
  if (!ok) { sym_reach("rejected"); return; }
  double s = 0; for (size_t i = 0; i < a.v.size(); i++) s += a.v[i] * b.v[i];
  sym_close(r, s, "dot product of vectors"); sym_reach("dot");
}
ENTRY(c09_norm) {
  int X = sym_dim("X", 1, 2), Y = sym_dim("Y", 1, 2); Ref<double> a = symRefIn<double>("a", X, Y, 1, -100.0, 100.0); SimpleMatrix<double> A = toMatrix(a);
  double n = my_cnn::l2Norm(A), s = 0; for (double d : a.v) s += d * d;
  sym_assert(n >= 0, "a norm is not negative"); sym_close(n, std::sqrt(s), "the norm is the root of the sum of squares");
  sym_reach("norm");
}
ENTRY(c09_equal) {
  int X = sym_dim("X", 1, 2), Y = sym_dim("Y", 1, 2), Z = sym_dim("Z", 1, 2), P = sym_dim("P", 1, 2), Q = sym_dim("Q", 1, 2), S = sym_dim("S", 1, 2);
  Ref<double> a = symRef<double>("a", X, Y, Z), b = symRef<double>("b", P, Q, S); SimpleMatrix<double> A = toMatrix(a), B = toMatrix(b);
  bool same = X == P && Y == Q && Z == S;
  if (!same) { sym_assert(!my_cnn::matrixEqual(A, B) && !my_cnn::matrixEqual(A, B, 1e9), "matrices of different size are not equal"); sym_reach("size"); return; }
  bool eq = true, close = true; double eps = 0.5;
  for (size_t i = 0; i < a.v.size(); i++) { double d = a.v[i] - b.v[i]; eq = eq & (d == 0); close = close & (d <= eps) & (d >= -eps); }
  sym_assert(my_cnn::matrixEqual(A, B) == eq, "matrices are equal exactly when all elements are");
  sym_assert(my_cnn::matrixEqual(A, B, eps) == close, "matrices are close exactly when all elements are");
  if (eq) sym_reach("equal"); else sym_reach("different");
}
ENTRY(c09_int) { // integer element types: no wrap-around through unsigned arithmetic, no truncation of the accumulator
  int X = sym_dim("X", 1, 3), Y = sym_dim("Y", 1, 2); Ref<int> a(X, Y, 1); for (auto &e : a.v) e = sym_int("a", -1000, 1000); SimpleMatrix<int> A = toMatrix(a);
  int s = 0; for (int d : a.v) s += d; int n = X * Y;
  sym_assert(my_cnn::sum(A) == s, "integer sum"); sym_assert(my_cnn::mean(A) == s / n, "integer mean");
  Ref<double> h = symRef<double>("h", 1, 2, 1), g = symRef<double>("g", 2, 1, 1); sym_close(my_cnn::dot(toMatrix(h), toMatrix(g)), h.v[0] * g.v[0] + h.v[1] * g.v[1], "dot keeps fractions");
  sym_assert(A.abs()(0, 0) == (a.v[0] < 0 ? -a.v[0] : a.v[0]), "integer magnitude");
  SimpleMatrix<unsigned char> U(dim3(2, 1, 1)); U(0, 0) = sym_byte("u"); U(1, 0) = sym_byte("u"); sym_assert(my_cnn::max(U) >= my_cnn::min(U) && U.abs()(1, 0) == U(1, 0), "unsigned elements");
  sym_reach("int");
}
ENTRY(c09_wide) {
  WIDE; int k = sym_dim("k", 0, 3); if (k == 0) { sums(X, Y, Z); return; }
  if (k == 1) { int n = X * Y * Z; Ref<double> a = symRef<double>("a", 1, n, 1), b = symRef<double>("b", n, 1, 1); double s = 0; for (int i = 0; i < n; i++) s += a.v[i] * b.v[i]; sym_close(my_cnn::dot(toMatrix(a), toMatrix(b)), s, "dot product of long vectors"); sym_reach("dot"); return; }
  Ref<double> a(X, Y, Z); for (size_t i = 0; i < a.v.size(); i++) a.v[i] = (double)((i * 37) % 101) - 150; // all negative, no order
  int N = X * Y * Z, pos; if (N <= 140) pos = sym_dim("pos", 0, N - 1); else { static const int at[] = {0, 1, 127, 128, 255, 256, 257}; int i = sym_dim("pos", 0, 7); pos = i < 7 ? at[i] : N - 1; } double v = sym_double("v");
  if (k == 2) {
    double hi = -1e9, lo = 1e9; for (size_t i = 0; i < a.v.size(); i++) if ((int)i != pos) { hi = a.v[i] > hi ? a.v[i] : hi; lo = a.v[i] < lo ? a.v[i] : lo; }
    bool top = sym_fork(sym_bool("top")); if (top) sym_assume(v > hi); else sym_assume(v < lo); a.v[pos] = v; SimpleMatrix<double> A = toMatrix(a); dim3 at(pos % X, pos / X % Y, pos / X / Y);
    if (top) { sym_close(my_cnn::max(A), v, "the maximum"); sym_assert(my_cnn::maxIndex(A) == at && A.maxIndex() == (size_t)pos, "position of the maximum"); sym_close(my_cnn::min(A), lo, "the minimum"); }
    else { sym_close(my_cnn::min(A), v, "the minimum"); sym_assert(my_cnn::minIndex(A) == at && A.minIndex() == (size_t)pos, "position of the minimum"); sym_close(my_cnn::max(A), hi, "the maximum"); }
    sym_reach("extrema"); return;
  }
  SimpleMatrix<double> A = toMatrix(a), B = A; double old = a.v[pos]; B[pos] = v; sym_assert(my_cnn::matrixEqual(A, B) == (v == old), "one different element makes matrices different"); sym_assert(my_cnn::matrixEqual(A, B, 0.25) == ((v - old <= 0.25) & (old - v <= 0.25)), "one distant element makes matrices not close"); sym_reach("equal");
}
ENTRY(c09_exact) { // one element of any value, the others zero: nothing is rounded
  int at = sym_dim("at", 0, 3), row = sym_dim("row", 0, 1); double v = posDouble("v"); sym_assume(v >= 1); SimpleMatrix<double> A(row ? dim3(1, 4, 1) : dim3(4, 1, 1), 0.0), B(dim3(4, 1, 1), 1.0); A[at] = v;
  sym_assert(my_cnn::sum(A) == v, "the sum is exact"); sym_assert(my_cnn::mean(A) == v / 4, "the mean is exact"); sym_assert(my_cnn::dot(A, B) == v && my_cnn::dot(B, A) == v, "the dot product is exact"); sym_assert(my_cnn::max(A) == v, "the maximum is exact"); sym_assert(my_cnn::min(A * -1.0) == -v, "the minimum is exact"); A[at] = 123456789.5; sym_assert(my_cnn::l2Norm(A) == 123456789.5, "the norm is not rounded to anything narrower"); A[at] = 3e60; sym_assert(my_cnn::l2Norm(A) == 3e60, "the norm is not rounded to anything narrower"); sym_reach("exact");
}
ENTRY(c09_huge) { // more elements than 16 bits can count
  HUGE_FEW; int n = X * Y * Z, k = fewPos(n), how = sym_dim("how", 0, 3); double v = sym_double("v"); SimpleMatrix<double> A(dim3(X, Y, Z), 1.0); dim3 d = posOf(k, X, Y);
  if (how == 0) { A[k] = v; sym_close(my_cnn::sum(A), v + (n - 1), "sum adds every element once"); sym_close(my_cnn::mean(A), (v + (n - 1)) / n, "mean divides the sum by the number of elements"); }
  if (how == 1) { sym_assume(v > 1); A[k] = v; sym_assert(my_cnn::maxIndex(A) == d && A.maxIndex() == (size_t)k && my_cnn::max(A) == v && my_cnn::min(A) == 1, "position of the maximum"); }
  if (how == 2) { sym_assume(v < 1); A[k] = v; sym_assert(my_cnn::minIndex(A) == d && A.minIndex() == (size_t)k && my_cnn::min(A) == v && my_cnn::max(A) == 1, "position of the minimum"); }
  if (how == 3) { SimpleMatrix<double> B = A; B[k] = v; sym_assert(my_cnn::matrixEqual(A, B) == (v == 1), "one different element makes matrices different"); sym_assert(my_cnn::matrixEqual(A, B, 0.25) == ((v - 1 <= 0.25) & (1 - v <= 0.25)), "one distant element makes matrices not close"); if (Z == 1 && (X == 1 || Y == 1)) sym_close(my_cnn::dot(A, B), v + (n - 1), "dot product of long vectors"); }
  sym_reach("huge");
}
ENTRY(c09_nan) { // a value that is not a number equals nothing
  int at = sym_dim("at", 0, 3), how = sym_dim("how", 0, 2); double q = std::numeric_limits<double>::quiet_NaN(), e = sym_double("eps"); sym_assume(e >= 0 && e <= 1e6); SimpleMatrix<double> A(dim3(2, 2, 1), 1.0), B = A; if (how != 1) A[at] = q; if (how != 0) B[at] = q;
  sym_assert(!my_cnn::matrixEqual(A, B) && !my_cnn::matrixEqual(A, B, e), "matrices are equal exactly when all elements are"); sym_reach("nan");
}
