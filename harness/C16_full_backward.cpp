//@ entry c16_gradients reach=value,volume
//@ entry c16_backward reach=inner,first
//@ entry c16_shapes reach=shapes
//@ entry c16_exact fp=ieee reach=exact
//@ entry c16_huge reach=huge steps=80000000
//@ bounds quick: inputs up to 2x2x2 of every shape, 1..3 outputs, and 4x3x2 -> 10, 1x1x30 -> 3, 20x1x1 -> 1, 3x10x10 -> 2, 1x2x1 -> 300; everything symbolic; c16_shapes: three inputs of 6 elements in any of 7 shapes; c16_exact: IEEE doubles, 2x2 -> 2, any double of magnitude 1e-200 to 1e200 as one gradient, input or weight; c16_huge: 1x70000x1 and 70x50x20 inputs
//@ bounds thorough: inputs up to 3x3x3, 1..4 outputs
#include "ly.h"
static RD dWof(const RD &in, const RD &g) { RD o(g.X, (int)in.v.size(), 1); EACH(o, i, j, z) o.at(i, j, 0) = g.v[i] * in.v[j]; return o; }
static RD dXof(const RD &in, const RD &w, const RD &g) { RD o(in.X, in.Y, in.Z); for (size_t j = 0; j < o.v.size(); j++) for (int i = 0; i < g.X; i++) o.v[j] += w.at(i, (int)j, 0) * g.v[i]; return o; }
ENTRY(c16_gradients) {
  int N = sym_tier() ? 3 : 2, w_ = sym_dim("wide", 0, 5), X, Y, Z, n; if (w_ == 0) { X = sym_dim("X", 1, N), Y = sym_dim("Y", 1, N), Z = sym_dim("Z", 1, N), n = sym_dim("outputs", 1, sym_tier() ? 4 : 3); } else if (w_ == 1) X = 4, Y = 3, Z = 2, n = 10; else if (w_ == 2) X = Y = 1, Z = 30, n = 3; else if (w_ == 3) X = 20, Y = Z = n = 1; else if (w_ == 4) X = 3, Y = 10, Z = 10, n = 2; else X = 1, Y = 2, Z = 1, n = 300;
  ConnectedLayer c(n); RD in = symRef<double>("in", X, Y, Z), g = symRef<double>("g", n, 1, 1); SimpleMatrix<double> I = toMatrix(in), G = toMatrix(g); c.checkSize(I); RD w = setParams(c.weights, "w"), b = setParams(c.biases, "b");
  expectSame(c.getdLdW(I, G), dWof(in, g), "weight gradient is the derivative of the forward pass");
  expectSame(c.getdLdX(G), dXof(in, w, g), "input gradient is the derivative of the forward pass, in the input's shape");
  expectSame(c.getdLdB(G), g, "bias gradient is the derivative of the forward pass");
  expectSame(I, in, "operands unchanged"); expectSame(c.weights, w, "parameters unchanged"); expectSame(c.biases, b, "parameters unchanged");
  sym_reach("value"); if (X > 1 && Y > 1 && Z > 1) sym_reach("volume");
}
ENTRY(c16_backward) {
  bool first = sym_fork(sym_bool("first")); int X = sym_dim("X", 1, 2), Y = sym_dim("Y", 1, 2), n = sym_dim("outputs", 1, 2);
  ConnectedLayer c(n); RD in = symRef<double>("in", X, Y, 2), g = symRef<double>("g", n, 1, 1); SimpleMatrix<double> I = toMatrix(in); c.checkSize(I); RD w = setParams(c.weights, "w"), b = setParams(c.biases, "b");
  c.setBatchSize(1); SimpleMatrix<double> Z = c.propagateForward(toMatrix(in)), D = c.propagateBackward(I, Z, toMatrix(g), 0, first);
  if (!first) { expectSame(D, dXof(in, w, g), "gradient handed to the previous layer has the shape of its output"); sym_reach("inner"); } else sym_reach("first");
  expectSame(c.weights, w, "parameters unchanged until the update"); expectSame(c.biases, b, "parameters unchanged until the update");
  c.applyBatch(0.25); RD dw = dWof(in, g);
  for (size_t i = 0; i < w.v.size(); i++) w.v[i] -= 0.25 * dw.v[i]; for (int i = 0; i < n; i++) b.v[i] -= 0.25 * g.v[i];
  expectSame(c.weights, w, "the update uses the weight gradient"); expectSame(c.biases, b, "the update uses the bias gradient");
}
ENTRY(c16_shapes) { // inputs of one element count but several shapes, in several slots
  static const Shape all[] = {{2, 3, 1}, {3, 2, 1}, {1, 6, 1}, {6, 1, 1}, {1, 2, 3}, {3, 1, 2}, {1, 1, 6}}; const int n = 2; ConnectedLayer c(n); Shape t0 = all[sym_dim("first", 0, 6)]; SimpleMatrix<double> I0(dim3(t0.X, t0.Y, t0.Z), 1.0); c.checkSize(I0);
  RD w = setParams(c.weights, "w"), b = setParams(c.biases, "b"); c.setBatchSize(2); RD in[2] = {RD(1, 1, 1), RD(1, 1, 1)}, g[2] = {RD(1, 1, 1), RD(1, 1, 1)}; SimpleMatrix<double> Z[2], D;
  int order = sym_dim("order", 0, 1);
  for (int i = 0; i < 2; i++) { Shape t = all[sym_dim("shape", 0, 6)]; in[i] = symRef<double>("in", t.X, t.Y, t.Z); g[i] = symRef<double>("g", n, 1, 1); Z[i] = c.propagateForward(toMatrix(in[i]), i); expectSame(Z[i], refFull(in[i], w, b), "the shape of an input does not matter"); }
  for (int j = 0; j < 2; j++) { int i = order ? 1 - j : j; D = c.propagateBackward(toMatrix(in[i]), Z[i], toMatrix(g[i]), i, false); expectSame(D, dXof(in[i], w, g[i]), "the input gradient has the shape of the input it belongs to"); }
  c.applyBatch(0.5); for (int i = 0; i < 2; i++) { RD dw = dWof(in[i], g[i]); for (size_t k = 0; k < w.v.size(); k++) w.v[k] -= 0.25 * dw.v[k]; for (int k = 0; k < n; k++) b.v[k] -= 0.25 * g[i].v[k]; }
  expectSame(c.weights, w, "the update uses the mean weight gradient"); expectSame(c.biases, b, "the update uses the mean bias gradient"); sym_reach("shapes");
}
ENTRY(c16_exact) { // one gradient, input or weight of any value, the others zero or one: nothing is rounded
  int what = sym_dim("what", 0, 2), at = sym_dim("at", 0, what == 0 ? 1 : what == 1 ? 3 : 7); double v = fullDouble("v"); ConnectedLayer c(2); SimpleMatrix<double> I(dim3(2, 2, 1), what == 1 ? 0.0 : 1.0), G(dim3(2, 1, 1), what == 0 ? 0.0 : 1.0); c.checkSize(I); for (auto &e : c.weights) e = what == 2 ? 0 : 1;
  if (what == 0) G[at] = v; else if (what == 1) I[at] = v; else c.weights(at / 4, at % 4) = v; SimpleMatrix<double> dW = c.getdLdW(I, G), dX = c.getdLdX(G), dB = c.getdLdB(G);
  for (int i = 0; i < 2; i++) { if (what < 2) for (int j = 0; j < 4; j++) sym_assert(dW(i, j) == ((what == 0 ? i == at : j == at) ? v : 0.0), "the weight gradient is exact"); if (what == 0) sym_assert(dB[i] == (i == at ? v : 0.0), "the bias gradient is exact"); }
  if (what != 1) for (int j = 0; j < 4; j++) sym_assert(dX[j] == (what == 0 || j == at % 4 ? v : 0.0), "the input gradient is exact"); sym_reach("exact");
}
ENTRY(c16_huge) { // more inputs than 16 bits can count
  int n = 70000, at = 65537, how = sym_dim("how", 0, 1); double v = sym_double("v"), w = sym_double("w"), g = sym_double("g"); ConnectedLayer c(1); c.setBatchSize(1); SimpleMatrix<double> in(how ? dim3(70, 50, 20) : dim3(1, n, 1), 5.0), G(dim3(1, 1, 1), 0.0); c.checkSize(in); for (auto &e : c.weights) e = 2; c.weights(0, at) = w; in[at] = v; G[0] = g; SimpleMatrix<double> W = c.getdLdW(in, G), X = c.propagateBackward(in, SimpleMatrix<double>(), G, 0, false);
  sym_assert(W.dim() == c.weights.dim() && X.dim() == in.dim(), "gradients have the shapes of what they are gradients of"); for (int i : {0, 4463, 65535, 65536, at, at + 1, n - 1}) { sym_close(X[i], i == at ? w * g : 2 * g, "input gradient is the derivative of the forward pass, in the input's shape"); sym_close(W(0, i), i == at ? v * g : 5 * g, "weight gradient is the derivative of the forward pass"); } sym_reach("huge");
}
