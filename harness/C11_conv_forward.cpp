//@ entry c11_value reach=value,multi,strided
//@ entry c11_wide reach=value,multi,strided
//@ entry c11_reject reach=rejected,accepted
//@ entry c11_pure reach=again
//@ entry c11_exact fp=ieee reach=exact
//@ entry c11_huge reach=huge
//@ bounds quick: inputs up to 3x3x2, filters up to 2x2, 1..2 channels, 1..2 filters, stride 1..2; weights, biases and inputs symbolic; c11_wide: 8x7x4 with 5 filters of 5x3, 1x12x1 with 6 filters of 1x5, 6x6x5 with 1 filter of 1x1, 4x1x1 with 300 filters of 2x1, 1x4x300 with 1 filter of 1x2, 1x300x1 with 1 filter of 1x2, stride 1..3, and 5, 9 and 130 on the last; c11_exact: IEEE doubles, 3x2x2 with 2 filters of 2x1, any double of magnitude 1e-200 to 1e200 as one input, weight or bias, zeros and ones elsewhere; c11_huge: 70000x1 and 1x70000 inputs, stride 60..62
//@ bounds thorough: inputs up to 5x5x3, filters up to 3x3, up to 3 channels and 3 filters, stride 1..3
#include "ly.h"
static void value(int P, int Q, int D, int F, int s, int X, int Y) {
  Kernel k(dim3(P, Q, D), F, s); RD w = setParams(k.weights, "w"), b = setParams(k.biases, "b"), in = symRef<double>("in", X, Y, D);
  sym_assert(w.X == P && w.Y == Q && w.Z == D * F && b.X == F && b.Y == 1 && b.Z == 1, "one weight per filter cell and channel, one bias per filter");
  RD o = refConv(in, w, b, F, D, s);
  sym_assert(k.outputSize(toMatrix(in)) == dim3(o.X, o.Y, o.Z), "predicted output size");
  SimpleMatrix<double> R = k.propagateForward(toMatrix(in));
  sym_assert(R.dim() == dim3(o.X, o.Y, o.Z), "one output channel per filter, one value per position");
  expectSame(R, o, "output is the filter response plus the bias");
  expectSame(k.weights, w, "forward pass leaves the weights alone"); expectSame(k.biases, b, "forward pass leaves the biases alone");
  sym_reach("value"); if (D > 1 && F > 1) sym_reach("multi"); if (s > 1) sym_reach("strided");
}
ENTRY(c11_value) {
  int T = sym_tier(), N = T ? 5 : 3, M = T ? 3 : 2, C = T ? 3 : 2;
  int P = sym_dim("P", 1, M), Q = sym_dim("Q", 1, M), D = sym_dim("depth", 1, C), F = sym_dim("filters", 1, C), s = sym_dim("stride", 1, T ? 3 : 2), X = sym_dim("X", 1, N), Y = sym_dim("Y", 1, N);
  sym_assume(P <= X && Q <= Y); value(P, Q, D, F, s, X, Y);
}
ENTRY(c11_wide) { int k = sym_dim("wide", 0, 5), s = sym_dim("stride", 1, 3); if (k == 0) value(5, 3, 4, 5, s, 8, 7); else if (k == 1) value(1, 5, 1, 6, s, 1, 12); else if (k == 2) value(1, 1, 5, 1, s, 6, 6); else if (k == 3) value(2, 1, 1, 300, s, 4, 1); else if (k == 4) value(1, 2, 300, 1, s, 1, 4); else if (sym_dim("long", 0, 1)) value(1, 2, 1, 1, s == 1 ? 130 : s == 2 ? 5 : 9, 1, 300); else value(1, 2, 1, 1, s, 1, 300); }
ENTRY(c11_reject) {
  int P = sym_dim("P", 1, 3), Q = sym_dim("Q", 1, 3), D = sym_dim("depth", 1, 2), X = sym_dim("X", 0, 3), Y = sym_dim("Y", 0, 3), Z = sym_dim("Z", 0, 3);
  Kernel k(dim3(P, Q, D), 1, 1); SimpleMatrix<double> in(dim3(X, Y, Z), 1.0);
  bool ok = X >= P && Y >= Q && Z == D;
  sym_assert(k.checkSize(in) == ok, "size check");
  sym_assert(rejects([&] { k.propagateForward(std::move(in)); }) == !ok, "an input the filters do not fit is rejected, one they fit is accepted");
  sym_reach(ok ? "accepted" : "rejected");
}
ENTRY(c11_pure) { // the result depends on the given input only, not on what was processed before
  Kernel k(dim3(2, 1, 2), 2, 1); RD w = setParams(k.weights, "w"), b = setParams(k.biases, "b"), a = symRef<double>("a", 3, 2, 2), c = symRef<double>("c", 2, 1, 2);
  k.propagateForward(toMatrix(a), 1); SimpleMatrix<double> R = k.propagateForward(toMatrix(c), 0); expectSame(R, refConv(c, w, b, 2, 2, 1), "second input");
  SimpleMatrix<double> S = k.propagateForward(toMatrix(a)); expectSame(S, refConv(a, w, b, 2, 2, 1), "first input again"); sym_reach("again");
}
ENTRY(c11_exact) { // one input, weight or bias of any value, the others zero or one: nothing is rounded
  int what = sym_dim("what", 0, 2), at = sym_dim("at", 0, what == 0 ? 11 : what == 1 ? 7 : 1); double v = fullDouble("v"); Kernel k(dim3(2, 1, 2), 2, 1); SimpleMatrix<double> I(dim3(3, 2, 2), what == 1 ? 1.0 : 0.0); for (auto &e : k.weights) e = what == 1 ? 0 : 1; for (auto &e : k.biases) e = 0;
  if (what == 0) I[at] = v; else if (what == 1) k.weights[at] = v; else k.biases[at] = v; int ax = at % 3, ay = at / 3 % 2; SimpleMatrix<double> R = k.propagateForward(std::move(I));
  for (int f = 0; f < 2; f++) for (int y = 0; y < 2; y++) for (int x = 0; x < 2; x++) { bool hit = what == 0 ? ay == y && (ax == x || ax == x + 1) : what == 1 ? at / 4 == f : at == f; sym_assert(R(x, y, f) == (hit ? v : 0.0), "a layer of zeros and ones is exact"); } sym_reach("exact");
}
ENTRY(c11_huge) { // inputs with more elements than 16 bits can count
  bool row = sym_fork(sym_bool("row")); int st = sym_dim("stride", 60, 62), n = 70000, at = 65536 / st, o = (n - 2) / st + 1; double v = sym_double("v"), w = sym_double("w"), b = sym_double("b"); Kernel k(row ? dim3(1, 2, 1) : dim3(2, 1, 1), 1, st); k.weights[0] = 2; k.weights[1] = w; k.biases[0] = b;
  SimpleMatrix<double> in(row ? dim3(1, n, 1) : dim3(n, 1, 1), 5.0); at += 3; in[at * st + 1] = v; SimpleMatrix<double> R = k.propagateForward(SimpleMatrix<double>(in)); sym_assert(R.dim() == (row ? dim3(1, o, 1) : dim3(o, 1, 1)), "one output channel per filter, one value per position");
  for (int i = 0; i < o; i++) sym_close(R[i], 10 + (i == at ? v : 5.0) * w + b, "output is the filter response plus the bias"); sym_reach("huge");
}
