//@ entry c08_value reach=value
//@ entry c08_wide reach=value
//@ entry c08_reject reach=rejected,accepted
//@ entry c08_forms reach=temporaries,views,expr
//@ entry c08_exact fp=ieee reach=exact
//@ entry c08_huge reach=huge
//@ bounds quick: inputs up to 4x4, filters up to 3x3, strides 1..3 in each direction; values symbolic; c08_wide: 12x9 with 5x3 (strides 1..3), 1x20 with 1x9, 10x11 with 4x7, 20x15 with 1x1 (strides up to 7), 300x1 with 2x1, 1x300 with 1x290, 2x300 with 2x2 (strides up to 390); c08_exact: IEEE doubles, 3x3 with 2x2, zeros and ones with any double of magnitude 1e-200 to 1e200 at any place; c08_huge: 70000x1, 1x70000 and 300x300 inputs, two values symbolic
//@ bounds thorough: inputs up to 6x6, filters up to 4x4, strides 1..4
#include <algorithm>
#include "mx.h"
static double corr(const Ref<double> &a, const Ref<double> &f, int i, int j, int sx, int sy) { double s = 0; for (int x = 0; x < f.X; x++) for (int y = 0; y < f.Y; y++) s += a.at(i * sx + x, j * sy + y, 0) * f.at(x, y, 0); return s; }
static void value(int X, int Y, int P, int Q, int sx, int sy) {
  Ref<double> a = symRef<double>("a", X, Y, 1), f = symRef<double>("f", P, Q, 1); SimpleMatrix<double> A = toMatrix(a), F = toMatrix(f);
  auto e = my_cnn::convolve(A, F, dim2(sx, sy)); SimpleMatrix<double> R = e;
  int ox = (X - P) / sx + 1, oy = (Y - Q) / sy + 1;
  sym_assert(e.dim() == dim3(ox, oy, 1) && R.dim() == dim3(ox, oy, 1), "one output per position of the filter inside the input");
  for (int i = 0; i < ox; i++) for (int j = 0; j < oy; j++) sym_close(R(i, j), corr(a, f, i, j, sx, sy), "each output is the filter applied to its window");
  expectSame(A, a, "operands are not changed"); expectSame(F, f, "operands are not changed");
  sym_reach("value");
}
ENTRY(c08_value) {
  int N = sym_tier() ? 6 : 4, M = sym_tier() ? 4 : 3, T = sym_tier() ? 4 : 3;
  int X = sym_dim("X", 1, N), Y = sym_dim("Y", 1, N), P = sym_dim("P", 1, M), Q = sym_dim("Q", 1, M), sx = sym_dim("sx", 1, T), sy = sym_dim("sy", 1, T);
  sym_assume(P <= X && Q <= Y); value(X, Y, P, Q, sx, sy);
}
ENTRY(c08_wide) { int k = sym_dim("wide", 0, 6), sx = sym_dim("sx", 1, 3), sy = sym_dim("sy", 1, 3); if (k == 0) value(12, 9, 5, 3, sx, sy); else if (k == 1) value(1, 20, 1, 9, sx, sy); else if (k == 2) value(10, 11, 4, 7, sx, sy); else if (k == 3) value(20, 15, 1, 1, sx + 4, sy + 3); else if (k == 4) value(300, 1, 2, 1, sx, sy); else if (k == 5) value(1, 300, 1, 290, sx, sy); else value(2, 300, 2, 2, sx, 130 * sy); }
ENTRY(c08_reject) {
  int X = sym_dim("X", 1, 3), Y = sym_dim("Y", 1, 3), P = sym_dim("P", 1, 4), Q = sym_dim("Q", 1, 4), sx = sym_int("sx", -3, 3), sy = sym_int("sy", -3, 3);
  SimpleMatrix<double> A(dim3(X, Y, 1)), F(dim3(P, Q, 1));
  bool ok = (P <= X) & (Q <= Y) & (sx >= 1) & (sy >= 1);
  bool rej = rejects([&] { SimpleMatrix<double> R = my_cnn::convolve(A, F, dim2(sx, sy)); });
  sym_assert(rej == !ok, "a filter larger than the input, or a stride below one, is rejected");
  if (ok) sym_reach("accepted"); else sym_reach("rejected");
}
ENTRY(c08_forms) {
  int how = sym_dim("how", 0, 2), P = sym_dim("P", 1, 2), Q = sym_dim("Q", 1, 2), sx = sym_dim("sx", 1, 2), sy = sym_dim("sy", 1, 2), l = sym_dim("l", 0, 1);
  Ref<double> a = symRef<double>("a", 3, 4, 2), f = symRef<double>("f", P, Q, 2), b(3, 4, 1), g(P, Q, 1); SimpleMatrix<double> A = toMatrix(a), F = toMatrix(f), R;
  EACH(b, x, y, z) b.at(x, y, 0) = a.at(x, y, l); EACH(g, x, y, z) g.at(x, y, 0) = f.at(x, y, l);
  if (how == 0) { auto e = my_cnn::convolve(toMatrix(b), toMatrix(g), dim2(sx, sy)); R = e; sym_reach("temporaries"); }
  else if (how == 1) { R = my_cnn::convolve(A.slice(l), F.slice(l), dim2(sx, sy)); sym_reach("views"); }
  else { R = my_cnn::convolve(A.slice(l) + 1.0, F.slice(l), dim2(sx, sy)); for (auto &e : b.v) e += 1; sym_reach("expr"); }
  sym_assert(R.dim() == dim3((3 - P) / sx + 1, (4 - Q) / sy + 1, 1), "size");
  for (int i = 0; i < R.dim().x; i++) for (int j = 0; j < R.dim().y; j++) sym_close(R(i, j), corr(b, g, i, j, sx, sy), "each output is the filter applied to its window");
}
ENTRY(c08_exact) { // one element of any value, the others zero or one: nothing is rounded
  bool left = sym_fork(sym_bool("left")); int i = sym_dim("i", 0, left ? 2 : 1), j = sym_dim("j", 0, left ? 2 : 1); double v = fullDouble("v"); Ref<double> a(3, 3, 1), f(2, 2, 1); for (auto &e : (left ? f : a).v) e = 1; (left ? a : f).at(i, j, 0) = v;
  SimpleMatrix<double> R = my_cnn::convolve(toMatrix(a), toMatrix(f), dim2(1, 1)); for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) sym_assert(R(x, y) == (!left || (i >= x && i <= x + 1 && j >= y && j <= y + 1) ? v : 0.0), "a convolution with zeros and ones is exact"); sym_reach("exact");
}
ENTRY(c08_huge) { // inputs with more elements than 16 bits can count
  int how = sym_dim("how", 0, 2), k = hugePos(70000); SimpleMatrix<double> A(how == 0 ? dim3(70000, 1, 1) : how == 1 ? dim3(1, 70000, 1) : dim3(300, 300, 1), 1.0), F(how == 0 ? dim3(2, 1, 1) : how == 1 ? dim3(1, 2, 1) : dim3(2, 2, 1), 3.0); double v = sym_double("v"), w = sym_double("w"); A[k] = v; F[1] = w; int s = how == 2 ? sym_dim("s", 5, 7) : sym_dim("s", 1, 2); SimpleMatrix<double> R = my_cnn::convolve(A, F, dim2(s, s));
  dim3 d = posOf(k, A.dim().x, A.dim().y); int i = std::min(d.x / s, R.dim().x - 1), j = std::min(d.y / s, R.dim().y - 1); double want = 0; for (int x = 0; x < F.dim().x; x++) for (int y = 0; y < F.dim().y; y++) want += A(i * s + x, j * s + y) * F(x, y);
  sym_assert(R.dim() == dim3((A.dim().x - F.dim().x) / s + 1, (A.dim().y - F.dim().y) / s + 1, 1), "one output per position of the filter inside the input"); sym_close(R(i, j), want, "each output is the filter applied to its window"); sym_reach("huge");
}
