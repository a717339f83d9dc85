//@ entry c13_value reach=max,min,avg,overlap,gap
//@ entry c13_wide reach=max,min,avg,overlap,gap
//@ entry c13_size reach=size
//@ entry c13_reject reach=rejected,accepted
//@ entry c13_exact fp=ieee reach=exact
//@ entry c13_huge reach=huge
//@ bounds quick: inputs up to 3x3 (2 channels for averages and inputs up to 4 cells per channel, else 1), pools up to 2x2 (values) with strides 1..2 (1..3 for sizes, inputs up to 8); values symbolic; c13_wide: inputs 7x6x3, 1x12x2, 2x300x1 and 1x6x300, pools 3x4 and 1x5, strides 1..4 (averages symbolic; for extrema one symbolic element at any position, the others fixed); c13_exact: IEEE doubles, 3x2 with a 2x2 pool, zeros with any double of magnitude 1e-200 to 1e200 at any place; c13_huge: 70000x1 and 1x70000 inputs
//@ bounds thorough: inputs up to 4x4x2, pools up to 3x3, strides 1..3; sizes up to 16
#include "ly.h"
static void check(Pooling &p, const RD &in, int kind, int P, int Q, int sx, int sy) {
  SimpleMatrix<double> R = p.propagateForward(toMatrix(in)); RD o((in.X - P) / sx + 1, (in.Y - Q) / sy + 1, in.Z);
  sym_assert(R.dim() == dim3(o.X, o.Y, o.Z), "one output per position of the pool inside the input");
  EACH(o, x, y, z) {
    double v = R(x, y, z), s = 0; int some = 0, all = 1;
    for (int q = 0; q < Q; q++) for (int r = 0; r < P; r++) { double e = in.at(x * sx + r, y * sy + q, z); s += e; some |= (v == e); all &= kind == 0 ? (e <= v) : (v <= e); }
    if (kind == 2) sym_close(v * (P * Q), s, "average of the window");
    else { sym_assert(all, kind == 0 ? "no element of the window is larger" : "no element of the window is smaller"); sym_assert(some, "the result is an element of the window"); }
  }
  sym_reach(kind == 0 ? "max" : kind == 1 ? "min" : "avg"); if (sx < P && o.X > 1) sym_reach("overlap"); if (sx > P) sym_reach("gap");
}
ENTRY(c13_value) {
  int T = sym_tier(), N = T ? 4 : 3, M = T ? 3 : 2;
  int kind = sym_dim("kind", 0, 2), P = sym_dim("P", 1, M), Q = sym_dim("Q", 1, M), sx = sym_dim("sx", 1, T ? 3 : 2), sy = sym_dim("sy", 1, T ? 3 : 2), X = sym_dim("X", P, N), Y = sym_dim("Y", Q, N), Z = sym_dim("Z", 1, 1 + (kind == 2 || X * Y <= 4));
  Pooling p(dim2(P, Q), dim2(sx, sy), kind == 0 ? my_cnn::MAX : kind == 1 ? my_cnn::MIN : my_cnn::AVG);
  RD in = symRef<double>("in", X, Y, Z); check(p, in, kind, P, Q, sx, sy);
}
ENTRY(c13_wide) {
  int kind = sym_dim("kind", 0, 2), w = sym_dim("wide", 0, 3), P = w ? 1 : 3, Q = w ? 5 : 4, sx = sym_dim("sx", 1, 4), sy = sym_dim("sy", 1, 2); Shape s = w == 3 ? Shape{1, 6, 300} : w == 2 ? Shape{2, 300, 1} : w ? Shape{1, 12, 2} : Shape{7, 6, 3}; if (w > 1) sx = 3 - sy;
  Pooling p(dim2(P, Q), dim2(sx, sy), kind == 0 ? my_cnn::MAX : kind == 1 ? my_cnn::MIN : my_cnn::AVG);
  if (kind == 2) { check(p, symRef<double>("in", s.X, s.Y, s.Z), kind, P, Q, sx, sy); return; }
  RD in(s.X, s.Y, s.Z); for (size_t i = 0; i < in.v.size(); i++) in.v[i] = (double)((i * 37) % 127) - 150;
  int at = sym_dim("at", 0, 11); in.v[(at * 11 + 5) % in.v.size()] = kind ? sym_double_in("v", -1000, -200) : sym_double_in("v", 1, 1000); check(p, in, kind, P, Q, sx, sy);
}
ENTRY(c13_size) {
  int N = sym_tier() ? 16 : 8; int P = sym_dim("P", 1, 4), sx = sym_dim("sx", 1, 4), X = sym_dim("X", P, N);
  Pooling p(dim2(P, 1), dim2(sx, 2), my_cnn::MAX), q(dim2(2, P), dim2(1, sx), my_cnn::MAX);
  sym_assert(p.outputSize(dim3(X, 5, 3)) == dim3((X - P) / sx + 1, 3, 3) && q.outputSize(dim3(6, X, 1)) == dim3(5, (X - P) / sx + 1, 1), "predicted size counts the positions of the pool inside the input");
  sym_reach("size");
}
ENTRY(c13_reject) {
  int P = sym_dim("P", 1, 3), Q = sym_dim("Q", 1, 3), X = sym_dim("X", 1, 3), Y = sym_dim("Y", 1, 3), kind = sym_dim("kind", 0, 2);
  Pooling p(dim2(P, Q), dim2(1, 1), kind == 0 ? my_cnn::MAX : kind == 1 ? my_cnn::MIN : my_cnn::AVG); SimpleMatrix<double> in(dim3(X, Y, 1), 1.0); bool ok = P <= X && Q <= Y;
  sym_assert(p.checkSize(in) == ok, "size check");
  sym_assert(rejects([&] { p.propagateForward(std::move(in)); }) == !ok, "an input smaller than the pool is rejected"); sym_reach(ok ? "accepted" : "rejected");
}
ENTRY(c13_exact) { // one element of any value, the others zero: nothing is rounded
  int kind = sym_dim("kind", 0, 2), at = sym_dim("at", 0, 5); double v = kind == 2 ? fullDouble("v") : posDouble("v"); if (kind == 1) v = -v; Pooling p(dim2(2, 2), dim2(1, 1), kind == 0 ? my_cnn::MAX : kind == 1 ? my_cnn::MIN : my_cnn::AVG); SimpleMatrix<double> I(dim3(3, 2, 1), 0.0); I[at] = v; SimpleMatrix<double> R = p.propagateForward(std::move(I));
  for (int x = 0; x < 2; x++) sym_assert(R(x, 0) == (at % 3 == x || at % 3 == x + 1 ? (kind == 2 ? v / 4 : v) : 0.0), "the pooled value is exact"); sym_reach("exact");
}
ENTRY(c13_huge) { // inputs with more elements than 16 bits can count
  int kind = sym_dim("kind", 0, 2), row = sym_dim("row", 0, 1), n = 70000, at = 65537; double v = sym_double("v"); sym_assume(kind != 0 || v > 5); sym_assume(kind != 1 || v < 5); Pooling p(row ? dim2(1, 2) : dim2(2, 1), dim2(2, 2), kind == 0 ? my_cnn::MAX : kind == 1 ? my_cnn::MIN : my_cnn::AVG); SimpleMatrix<double> in(row ? dim3(1, n, 1) : dim3(n, 1, 1), 5.0); in[at] = v; SimpleMatrix<double> R = p.propagateForward(std::move(in));
  sym_assert(R.dim() == (row ? dim3(1, n / 2, 1) : dim3(n / 2, 1, 1)), "one output per position of the pool inside the input"); for (int i : {0, 1, 2232, at / 2 - 1, at / 2, at / 2 + 1, n / 2 - 1}) sym_close(R[i], i != at / 2 ? 5.0 : kind == 2 ? (v + 5) / 2 : v, "pooled value of the window"); sym_reach("huge");
}
