//@ entry c14_gradient reach=max,min,avg,overlap
//@ entry c14_wide reach=max,min,avg,overlap
//@ entry c14_slots reach=slots
//@ entry c14_long reach=long
//@ entry c14_exact fp=ieee reach=exact
//@ entry c14_huge reach=huge
//@ bounds quick: inputs up to 3x3 with 1..2 channels, pools up to 2x2, strides 1..2; values and gradients symbolic; 3 batch slots in every order of use; c14_long: 300 slots in use at the same time; c14_wide: inputs 7x6x3, 1x12x2, 2x300x1 and 1x6x300, pools 3x4 and 1x5, strides 1..3 (gradients symbolic; inputs fixed for extrema); c14_exact: IEEE doubles, 3x2 with a 2x2 pool, one gradient any double of magnitude 1e-200 to 1e200; c14_huge: 70000x1 and 1x70000 inputs
//@ bounds thorough: inputs up to 4x4x2, pools up to 3x3, strides 1..3
//@ assume for MAX and MIN pools the extremum of each window is unique (elsewhere the derivative does not exist)
#include "ly.h"
static my_cnn::PoolingType K(int k) { return k == 0 ? my_cnn::MAX : k == 1 ? my_cnn::MIN : my_cnn::AVG; }
// derivative of the pooled output, weighted with the output gradient
static RD refPool(const RD &in, const RD &g, int kind, int P, int Q, int sx, int sy) {
  RD o(in.X, in.Y, in.Z);
  EACH(g, x, y, z) for (int q = 0; q < Q; q++) for (int r = 0; r < P; r++) {
    int ix = x * sx + r, iy = y * sy + q;
    if (kind == 2) { o.at(ix, iy, z) += g.at(x, y, z) / (P * Q); continue; }
    int best = 1; double e = in.at(ix, iy, z);
    for (int b = 0; b < Q; b++) for (int a = 0; a < P; a++) if (a != r || b != q) { double d = in.at(x * sx + a, y * sy + b, z); sym_assume(d != e); best &= kind == 0 ? (d < e) : (e < d); }
    o.at(ix, iy, z) += best ? g.at(x, y, z) : 0.0;
  }
  return o;
}
static void check(Pooling &p, const RD &in, int kind, int P, int Q, int sx, int sy) {
  RD g = symRef<double>("g", (in.X - P) / sx + 1, (in.Y - Q) / sy + 1, in.Z); RD o = refPool(in, g, kind, P, Q, sx, sy);
  SimpleMatrix<double> R = p.propagateForward(toMatrix(in), 0), D = p.propagateBackward(toMatrix(in), R, toMatrix(g), 0, false);
  expectSame(D, o, "input gradient is the derivative of the pooling");
  sym_reach(kind == 0 ? "max" : kind == 1 ? "min" : "avg"); if (sx < P && g.X > 1) sym_reach("overlap");
}
ENTRY(c14_gradient) {
  int T = sym_tier(), N = T ? 4 : 3, M = T ? 3 : 2;
  int kind = sym_dim("kind", 0, 2), P = sym_dim("P", 1, M), Q = sym_dim("Q", 1, M), sx = sym_dim("sx", 1, T ? 3 : 2), sy = sym_dim("sy", 1, T ? 3 : 2), X = sym_dim("X", P, N), Y = sym_dim("Y", Q, N), Z = sym_dim("Z", 1, 1 + (T || kind == 2 || X * Y <= 4));
  Pooling p(dim2(P, Q), dim2(sx, sy), K(kind)); p.setBatchSize(1);
  RD in = symRef<double>("in", X, Y, Z); check(p, in, kind, P, Q, sx, sy);
}
ENTRY(c14_wide) {
  int kind = sym_dim("kind", 0, 2), w = sym_dim("wide", 0, 3), P = w ? 1 : 3, Q = w ? 5 : 4, sx = sym_dim("sx", 1, 3), sy = sym_dim("sy", 1, 3); Pooling p(dim2(P, Q), dim2(sx, sy), K(kind)); p.setBatchSize(2);
  RD in = w == 3 ? RD(1, 6, 300) : w == 2 ? RD(2, 300, 1) : w ? RD(1, 12, 2) : RD(7, 6, 3); for (size_t i = 0; i < in.v.size(); i++) in.v[i] = kind == 2 ? sym_double("in") : (double)((i * 37) % 127) - 60; check(p, in, kind, P, Q, sx, sy);
}
ENTRY(c14_slots) { // each batch slot keeps its own input's extrema, whatever is processed in between
  int kind = sym_dim("kind", 0, 1), i = sym_dim("i", 0, 2), j = sym_dim("j", 0, 2); sym_assume(i != j);
  Pooling p(dim2(2, 1), dim2(1, 1), K(kind)); p.setBatchSize(3);
  RD a = symRef<double>("a", 2, 2, 1), b = symRef<double>("b", 3, 1, 1), g = symRef<double>("g", 1, 2, 1), h = symRef<double>("h", 2, 1, 1);
  RD oa = refPool(a, g, kind, 2, 1, 1, 1), ob = refPool(b, h, kind, 2, 1, 1, 1);
  SimpleMatrix<double> A = p.propagateForward(toMatrix(a), i), B = p.propagateForward(toMatrix(b), j);
  expectSame(p.propagateBackward(toMatrix(a), A, toMatrix(g), i, false), oa, "first slot"); expectSame(p.propagateBackward(toMatrix(b), B, toMatrix(h), j, false), ob, "second slot");
  A = p.propagateForward(toMatrix(a), j); expectSame(p.propagateBackward(toMatrix(a), A, toMatrix(g), j, false), oa, "slot used again"); sym_reach("slots");
}
ENTRY(c14_long) { // hundreds of batch slots in use at once, released in another order
  int kind = sym_dim("kind", 0, 1), n = 300; Pooling p(dim2(2, 1), dim2(1, 1), K(kind)); p.setBatchSize(n); std::vector<int> best; SimpleMatrix<double> R;
  for (int i = 0; i < n; i++) { int at = (i * 7 / 3 + i / 16 + i / 256) & 1; best.push_back(at); SimpleMatrix<double> in(dim3(2, 1, 1), 0.0); in[at] = kind ? -1 : 1; R = p.propagateForward(std::move(in), i); }
  double g = sym_double("g"); for (int j = 0; j < n; j++) { int i = (j * 7) % n; SimpleMatrix<double> D = p.propagateBackward(SimpleMatrix<double>(dim3(2, 1, 1)), R, SimpleMatrix<double>(dim3(1, 1, 1), g), i, false); sym_close(D[best[i]], g, "every slot remembers its own extrema"); sym_assert(D[1 - best[i]] == 0, "every slot remembers its own extrema"); }
  sym_reach("long");
}
ENTRY(c14_exact) { // one gradient of any value, the other zero: nothing is rounded
  int kind = sym_dim("kind", 0, 2), at = sym_dim("at", 0, 1); double v = fullDouble("v"); Pooling p(dim2(2, 2), dim2(1, 1), K(kind)); p.setBatchSize(1); SimpleMatrix<double> I(dim3(3, 2, 1), 0.0), G(dim3(2, 1, 1), 0.0); I(1, 1) = kind == 1 ? -1 : 1; G[at] = v; SimpleMatrix<double> R = p.propagateForward(SimpleMatrix<double>(I), 0), D = p.propagateBackward(I, R, G, 0, false);
  for (int y = 0; y < 2; y++) for (int x = 0; x < 3; x++) sym_assert(D(x, y) == (kind == 2 ? (x == at || x == at + 1 ? v / 4 : 0.0) : x == 1 && y == 1 ? v : 0.0), "the gradient is exact"); sym_reach("exact");
}
ENTRY(c14_huge) { // inputs with more elements than 16 bits can count
  int kind = sym_dim("kind", 0, 2), row = sym_dim("row", 0, 1), st = sym_dim("stride", 60, 62), n = 70000, o = (n - 2) / st + 1, at = 65536 / st + 2; double g = sym_double("g"), h = sym_double("h"); Pooling p(row ? dim2(1, 2) : dim2(2, 1), row ? dim2(1, st) : dim2(st, 1), K(kind)); p.setBatchSize(1); SimpleMatrix<double> in(row ? dim3(1, n, 1) : dim3(n, 1, 1), 5.0); for (int i = 0; i < o; i++) in[i * st + i % 2] = kind == 1 ? 4 : 6; SimpleMatrix<double> R = p.propagateForward(SimpleMatrix<double>(in), 0), G(R.dim(), 0.0); sym_assert(R.size() == (size_t)o, "one output per position"); G[at] = g; G[o - 1] = h;
  SimpleMatrix<double> D = p.propagateBackward(in, R, G, 0, false); sym_assert(D.dim() == in.dim(), "shape of the input"); for (int i = 0; i < n; i++) if (i < 2 || i % st < 2 || i > n - 3) { double d = i / st == at ? g : i / st == o - 1 ? h : 0.0; int r = i % st; sym_close(D[i], r > 1 || i / st >= o ? 0.0 : kind == 2 ? d / 2 : r == i / st % 2 ? d : 0.0, "input gradient is the derivative of the pooling"); } sym_reach("huge");
}
