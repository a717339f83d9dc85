//@ entry c15_value reach=value,volume
//@ entry c15_reject reach=rejected,accepted
//@ entry c15_exact fp=ieee reach=exact
//@ entry c15_huge reach=huge steps=80000000
//@ bounds quick: inputs up to 2x2x2 of every shape, 1..3 outputs, and 4x3x2 -> 10, 1x1x30 -> 3, 20x1x1 -> 1, 3x10x10 -> 2, 1x2x1 -> 300; weights, biases and inputs symbolic; c15_exact: IEEE doubles, 2x2 -> 2, any double of magnitude 1e-200 to 1e200 as one input, weight or bias, zeros and ones elsewhere; c15_huge: 1x70000x1 and 70x50x20 inputs
//@ bounds thorough: inputs up to 3x3x3, 1..5 outputs
#include "ly.h"
ENTRY(c15_value) {
  int N = sym_tier() ? 3 : 2, w_ = sym_dim("wide", 0, 5), X, Y, Z, n; if (w_ == 0) { X = sym_dim("X", 1, N), Y = sym_dim("Y", 1, N), Z = sym_dim("Z", 1, N), n = sym_dim("outputs", 1, sym_tier() ? 5 : 3); } else if (w_ == 1) X = 4, Y = 3, Z = 2, n = 10; else if (w_ == 2) X = Y = 1, Z = 30, n = 3; else if (w_ == 3) X = 20, Y = Z = n = 1; else if (w_ == 4) X = 3, Y = 10, Z = 10, n = 2; else X = 1, Y = 2, Z = 1, n = 300;
  ConnectedLayer c(n); RD in = symRef<double>("in", X, Y, Z), other = symRef<double>("other", X, Y, Z);
  sym_assert(c.checkSize(toMatrix(in)), "the first input defines the layer's size");
  RD w = setParams(c.weights, "w"), b = setParams(c.biases, "b");
  sym_assert(w.X == n && w.Y == X * Y * Z && w.Z == 1 && b.X == n && b.Y == 1 && b.Z == 1, "one weight per output and input element, one bias per output");
  SimpleMatrix<double> R = c.propagateForward(toMatrix(in), 1); expectSame(R, refFull(in, w, b), "output is weights times input plus biases");
  SimpleMatrix<double> S = c.propagateForward(toMatrix(other), 0); expectSame(S, refFull(other, w, b), "output depends on the given input only");
  expectSame(c.weights, w, "forward pass leaves the parameters alone"); expectSame(c.biases, b, "forward pass leaves the parameters alone");
  sym_reach("value"); if (X > 1 && Y > 1 && Z > 1) sym_reach("volume");
}
ENTRY(c15_reject) {
  int X = sym_dim("X", 1, 3), Y = sym_dim("Y", 1, 2), U = sym_dim("U", 1, 3), V = sym_dim("V", 1, 3);
  ConnectedLayer c(sym_dim("outputs", 1, 3)); SimpleMatrix<double> a(dim3(X, Y, 1), 1.0), b(dim3(U, 1, V), 2.0); c.propagateForward(std::move(a)); bool ok = U * V == X * Y; RD w = fromMatrix(c.weights);
  sym_assert(c.checkSize(b) == ok, "size check");
  sym_assert(rejects([&] { c.propagateForward(std::move(b)); }) == !ok, "an input with another number of elements is rejected"); expectSame(c.weights, w, "a later input does not reinitialise the layer");
  sym_reach(ok ? "accepted" : "rejected");
}
ENTRY(c15_exact) { // one input, weight or bias of any value, the others zero or one: nothing is rounded
  int what = sym_dim("what", 0, 2), at = sym_dim("at", 0, what == 0 ? 3 : what == 1 ? 7 : 1); double v = fullDouble("v"); ConnectedLayer c(2); SimpleMatrix<double> I(dim3(2, 2, 1), what == 1 ? 1.0 : 0.0); c.checkSize(I); for (auto &e : c.weights) e = what == 1 ? 0 : 1; for (auto &e : c.biases) e = 0;
  if (what == 0) I[at] = v; else if (what == 1) c.weights(at / 4, at % 4) = v; else c.biases[at] = v; SimpleMatrix<double> R = c.propagateForward(std::move(I));
  for (int i = 0; i < 2; i++) sym_assert(R[i] == (what == 0 || (what == 1 ? at / 4 == i : at == i) ? v : 0.0), "a layer of zeros and ones is exact"); sym_reach("exact");
}
ENTRY(c15_huge) { // more inputs than 16 bits can count
  int n = 70000, at = 65537, how = sym_dim("how", 0, 1); double v = sym_double("v"), w = sym_double("w"), b = sym_double("b"); ConnectedLayer c(1); SimpleMatrix<double> in(how ? dim3(70, 50, 20) : dim3(1, n, 1), 5.0); sym_assert(c.checkSize(in), "the first input defines the layer's size"); sym_assert(c.weights.dim() == dim3(1, n, 1), "one weight per output and input element, one bias per output"); for (auto &e : c.weights) e = 2; c.biases[0] = b; c.weights(0, at) = w; in[at] = v; SimpleMatrix<double> R = c.propagateForward(SimpleMatrix<double>(in));
  sym_assert(R.dim() == dim3(1, 1, 1), "one value per output"); sym_close(R[0], v * w + 10.0 * (n - 1) + b, "output is weights times input plus biases"); sym_assert(!c.checkSize(SimpleMatrix<double>(dim3(1, n - 65536, 1))), "an input with another number of elements is rejected"); sym_reach("huge");
}
