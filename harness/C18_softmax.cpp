//@ entry c18_value reach=row,column
//@ entry c18_order reach=order
//@ entry c18_shift reach=shift
//@ entry c18_finite fp=abs reach=finite
//@ entry c18_wide reach=wide
//@ entry c18_reject reach=rejected,accepted
//@ entry c18_long reach=long
//@ entry c18_exact fp=ieee reach=exact
//@ bounds quick: 1..3 classes as a row or a column, scores any real number (c18_finite: 1..3 classes, any finite double up to 1e300); c18_wide: 10 classes, nine given scores and any larger one at any position; c18_exact: 41 given score vectors of 2..4 classes in double arithmetic, at any offset of a list; c18_long: 300 classes, equal scores but for one larger one
//@ bounds thorough: up to 4 classes
//@ assume exp is a real function with its usual algebraic identities and monotonicity
#include <cmath>
#include "ly.h"
static SimpleMatrix<double> vec(const RD &r, bool row) { SimpleMatrix<double> m(row ? dim3(1, r.X, 1) : dim3(r.X, 1, 1)); for (int i = 0; i < r.X; i++) if (row) m(0, i, 0) = r.v[i]; else m(i, 0, 0) = r.v[i]; return m; }
ENTRY(c18_value) {
  bool row = sym_fork(sym_bool("row")); int n = sym_dim("n", 1, sym_tier() ? 4 : 3); Softmax s(n); RD in = symRef<double>("in", n, 1, 1); SimpleMatrix<double> I = vec(in, row), R = s.propagateForward(vec(in, row), 0);
  sym_assert(R.dim() == I.dim(), "same shape as the scores"); double t = 0; for (int i = 0; i < n; i++) t += R[i];
  sym_close(t, 1, "probabilities sum to one");
  for (int i = 0; i < n; i++) sym_assert(R[i] >= 0 && R[i] <= 1, "every probability lies between zero and one");
  for (int i = 0; i + 1 < n; i++) { double e = std::exp(in.v[i] - in.v[i + 1]); sym_close(R[i], e * R[i + 1], "odds are the exponential of the score difference"); }
  sym_reach(row ? "row" : "column");
}
ENTRY(c18_order) {
  int n = sym_dim("n", 2, 3); Softmax s(n); RD in = symRef<double>("in", n, 1, 1); SimpleMatrix<double> R = s.propagateForward(vec(in, false), 0); int i = sym_dim("i", 0, n - 1), j = sym_dim("j", 0, n - 1); sym_assume(in.v[i] < in.v[j]);
  sym_assert(R[i] < R[j], "a larger score has a larger probability"); sym_reach("order");
}
ENTRY(c18_shift) {
  int n = sym_dim("n", 1, 3); Softmax s(n); double c = sym_double("c"); RD in = symRef<double>("in", n, 1, 1), sh = in; for (auto &e : sh.v) e += c;
  SimpleMatrix<double> R = s.propagateForward(vec(in, false), 0), S = s.propagateForward(vec(sh, false), 0); for (int i = 0; i < n; i++) sym_close(R[i], S[i], "adding a constant to all scores changes nothing"); sym_reach("shift");
}
ENTRY(c18_finite) {
  int n = sym_dim("n", 1, 3); Softmax s(n); SimpleMatrix<double> m(dim3(n, 1, 1)); for (int i = 0; i < n; i++) { double a = sym_double("in"); sym_assume(a >= -1e300 && a <= 1e300); m[i] = a; }
  SimpleMatrix<double> R = s.propagateForward(std::move(m), 0); int top = 0;
  for (int i = 0; i < n; i++) { sym_assert(R[i] >= 0 && R[i] <= 1, "scores of any size give probabilities"); top |= R[i] > 0; }
  sym_assert(top, "some class has a positive probability"); sym_reach("finite");
}
ENTRY(c18_reject) {
  int n = sym_dim("n", 1, 3), X = sym_dim("X", 1, 3), Y = sym_dim("Y", 1, 3), Z = sym_dim("Z", 1, 2); Softmax s(n); SimpleMatrix<double> m(dim3(X, Y, Z), 1.0); bool ok = (X == 1) + (Y == 1) + (Z == 1) >= 2 && Z == 1 && X * Y == n;
  sym_assert(s.checkSize(m) == ok, "size check"); sym_assert(rejects([&] { s.propagateForward(std::move(m), 0); }) == !ok, "anything but one score per class is rejected"); sym_reach(ok ? "accepted" : "rejected");
}
ENTRY(c18_wide) { // ten classes, the largest score at any position
  int n = 10, top = sym_dim("top", 0, 9); bool row = top & 1; Softmax s(n); RD in(n, 1, 1); for (int i = 0; i < n; i++) in.v[i] = ((i * 7) % 10) / 4.0 - 1; in.v[top] = sym_double_in("v", 2, 9);
  SimpleMatrix<double> R = s.propagateForward(vec(in, row), 0); sym_assert(R.dim() == (row ? dim3(1, n, 1) : dim3(n, 1, 1)), "same shape as the scores");
  for (int i = 0; i < n; i++) sym_close(R[i], std::exp(in.v[i] - in.v[top]) * R[top], "odds are the exponential of the score difference"); sym_reach("wide");
}
ENTRY(c18_long) { // many classes, the largest score anywhere
  int n = 300, k = sym_dim("top", 0, 4); static const int at[] = {0, 127, 128, 256, 299}; int top = at[k]; bool row = sym_fork(sym_bool("row")); Softmax s(n); dim3 sh = row ? dim3(1, n, 1) : dim3(n, 1, 1); SimpleMatrix<double> m(sh, 0.0); double v = sym_double_in("v", 0.5, 9); m[top] = v;
  SimpleMatrix<double> R = s.propagateForward(std::move(m), 0); sym_assert(R.dim() == sh, "same shape as the scores"); for (int i = 0; i < n; i++) if (i != top) sym_close(R[i] * std::exp(v), R[top], "odds are the exponential of the score difference"); double t = 0; for (int i = 0; i < n; i++) t += R[i]; sym_close(t, 1, "probabilities sum to one"); sym_reach("long");
}
ENTRY(c18_exact) { // in the precision of the elements, not that of something narrower
  int k = sym_dim("score", 0, 40), n = sym_dim("n", 2, 4), o = sym_dim("offset", 0, 2); double c = o == 0 ? 0 : o == 1 ? 64 : -1024, t = 0; std::vector<double> e; SimpleMatrix<double> m(dim3(n, 1, 1)); for (int i = 0; i < n; i++) { double x = -k * i / 4.0; m[i] = x + c; e.push_back(std::exp(x)); t += e[i]; }
  Softmax s(n); SimpleMatrix<double> R = s.propagateForward(std::move(m), 0); for (int i = 0; i < n; i++) { double d = R[i] - e[i] / t; sym_assert(d < 1e-12 * (e[i] / t) && -d < 1e-12 * (e[i] / t), "probabilities in the precision of the elements"); } sym_reach("exact");
}
