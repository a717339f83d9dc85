//@ entry c12_gradients reach=value,multi,nonsquare
//@ entry c12_wide reach=value,multi,nonsquare
//@ entry c12_strided reach=strided,rest
//@ entry c12_backward reach=inner,first
//@ entry c12_exact fp=ieee reach=exact
//@ bounds quick: inputs up to 3x3x2, filters up to 2x2, 1..2 channels, 1..2 filters, stride 1; c12_strided: 2..5 x 3 inputs, filters up to 2x2, 2 channels, 1..2 filters, stride 2..3, and 17x9x2 with stride 6, 2x23x1 with stride 5, 300x1x1 with stride 9, 1x300x1 with stride 130, 12x10x2 with stride 4; everything symbolic; c12_wide: 7x6x3 with 4 filters of 4x3, 1x12x1 with 5 filters of 1x5, 5x6x4 with 2 filters of 5x6, 3x1x1 with 300 filters of 2x1, 1x3x300 with 1 filter of 1x2, 1x300x1 with 1 filter of 1x2; c12_exact: IEEE doubles, 3x2x1 with 2 filters of 2x1, any double of magnitude 1e-200 to 1e200 as one gradient, input or weight
//@ bounds thorough: inputs up to 5x5x3, filters up to 3x3, up to 3 channels and 3 filters
#include "ly.h"
static void gradients(int P, int Q, int D, int F, int X, int Y) {
  Kernel k(dim3(P, Q, D), F, 1); RD w = setParams(k.weights, "w"), b = setParams(k.biases, "b"), in = symRef<double>("in", X, Y, D), g = symRef<double>("g", X - P + 1, Y - Q + 1, F);
  SimpleMatrix<double> I = toMatrix(in), G = toMatrix(g);
  SimpleMatrix<double> dW = k.getdLdW(I, G), dX = k.getdLdX(I, G), dB = k.getdLdB(G);
  expectSame(dW, refConvW(in, w, g, F, D), "weight gradient is the derivative of the forward pass");
  expectSame(dX, refConvX(in, w, g, F, D), "input gradient is the derivative of the forward pass");
  expectSame(dB, refConvB(g), "bias gradient is the derivative of the forward pass");
  expectSame(k.weights, w, "parameters unchanged"); expectSame(k.biases, b, "parameters unchanged");
  sym_reach("value"); if (D > 1 && F > 1) sym_reach("multi"); if (P != Q && X != Y) sym_reach("nonsquare");
}
ENTRY(c12_gradients) {
  int T = sym_tier(), N = T ? 5 : 3, M = T ? 3 : 2, C = T ? 3 : 2;
  int P = sym_dim("P", 1, M), Q = sym_dim("Q", 1, M), D = sym_dim("depth", 1, C), F = sym_dim("filters", 1, C), X = sym_dim("X", 1, N), Y = sym_dim("Y", 1, N);
  sym_assume(P <= X && Q <= Y); gradients(P, Q, D, F, X, Y);
}
static void strided(int s, int P, int Q, int X, int Y, int F, int D) {
  Kernel k(dim3(P, Q, D), F, s); RD w = setParams(k.weights, "w"), b = setParams(k.biases, "b"), in = symRef<double>("in", X, Y, D), g = symRef<double>("g", (X - P) / s + 1, (Y - Q) / s + 1, F);
  SimpleMatrix<double> I = toMatrix(in), G = toMatrix(g); k.setBatchSize(1); SimpleMatrix<double> Z = k.propagateForward(SimpleMatrix<double>(I)), dX = k.propagateBackward(I, Z, G, 0, false);
  expectSame(dX, refConvX(in, w, g, F, D, s), "input gradient is the derivative of the forward pass"); expectSame(k.getdLdW(I, G), refConvW(in, w, g, F, D, s), "weight gradient is the derivative of the forward pass"); expectSame(k.getdLdB(G), refConvB(g), "bias gradient is the derivative of the forward pass");
  sym_reach("strided"); if ((X - P) % s) sym_reach("rest");
}
ENTRY(c12_strided) { // positions left over at the end, where the filter fits no more, get no gradient
  int k = sym_dim("long", 0, 5), T = sym_tier(); if (k == 1) { strided(6, 2, 1, 17, 9, 1, 2); return; } if (k == 2) { strided(5, 1, 7, 2, 23, 2, 1); return; } if (k == 3) { strided(9, 2, 1, 300, 1, 1, 1); return; } if (k == 4) { strided(130, 1, 2, 1, 300, 2, 1); return; } if (k == 5) { strided(4, 3, 3, 12, 10, 3, 2); return; }
  int s = sym_dim("stride", 2, 3), P = sym_dim("P", 1, 2), Q = sym_dim("Q", 1, 2), X = sym_dim("X", 2, T ? 6 : 5), F = sym_dim("filters", 1, 2); strided(s, P, Q, X, 3 + T, F, 2);
}
ENTRY(c12_wide) { int k = sym_dim("wide", 0, 5); if (k == 0) gradients(4, 3, 3, 4, 7, 6); else if (k == 1) gradients(1, 5, 1, 5, 1, 12); else if (k == 2) gradients(5, 6, 4, 2, 5, 6); else if (k == 3) gradients(2, 1, 1, 300, 3, 1); else if (k == 4) gradients(1, 2, 300, 1, 1, 3); else gradients(1, 2, 1, 1, 1, 300); }
ENTRY(c12_backward) { // through the layer interface, and into the update
  bool first = sym_fork(sym_bool("first")); int P = sym_dim("P", 1, 2), X = sym_dim("X", 2, 3);
  Kernel k(dim3(P, 2, 2), 2, 1); RD w = setParams(k.weights, "w"), b = setParams(k.biases, "b"), in = symRef<double>("in", X, 3, 2), g = symRef<double>("g", X - P + 1, 2, 2);
  k.setBatchSize(1); SimpleMatrix<double> Z = k.propagateForward(toMatrix(in));
  SimpleMatrix<double> dX = k.propagateBackward(toMatrix(in), Z, toMatrix(g), 0, first);
  if (!first) { expectSame(dX, refConvX(in, w, g, 2, 2), "gradient handed to the previous layer"); sym_reach("inner"); } else sym_reach("first");
  expectSame(k.weights, w, "parameters unchanged until the update"); expectSame(k.biases, b, "parameters unchanged until the update");
  k.applyBatch(0.5); RD dw = refConvW(in, w, g, 2, 2), db = refConvB(g);
  for (size_t i = 0; i < w.v.size(); i++) w.v[i] -= 0.5 * dw.v[i]; for (size_t i = 0; i < b.v.size(); i++) b.v[i] -= 0.5 * db.v[i];
  expectSame(k.weights, w, "the update uses the weight gradient"); expectSame(k.biases, b, "the update uses the bias gradient");
}
ENTRY(c12_exact) { // one gradient, input or weight of any value, the others zero or one: nothing is rounded
  int what = sym_dim("what", 0, 2); double v = fullDouble("v"); Kernel k(dim3(2, 1, 1), 2, 1); SimpleMatrix<double> I(dim3(3, 2, 1), what == 1 ? 0.0 : 1.0), G(dim3(2, 2, 2), what == 0 ? 0.0 : 1.0); for (auto &e : k.weights) e = what == 2 ? 0 : 1;
  int at = sym_dim("at", 0, what == 0 ? 7 : what == 1 ? 5 : 3); if (what == 0) G[at] = v; else if (what == 1) I[at] = v; else k.weights[at] = v;
  SimpleMatrix<double> dW = k.getdLdW(I, G), dX = k.getdLdX(I, G), dB = k.getdLdB(G);
  if (what == 0) { for (int i = 0; i < 4; i++) sym_assert(dW[i] == (i / 2 == at / 4 ? v : 0.0), "the weight gradient is exact"); for (int y = 0; y < 2; y++) for (int x = 0; x < 3; x++) sym_assert(dX(x, y) == (y == at / 2 % 2 && (x == at % 2 || x == at % 2 + 1) ? v : 0.0), "the input gradient is exact"); for (int f = 0; f < 2; f++) sym_assert(dB[f] == (f == at / 4 ? v : 0.0), "the bias gradient is exact"); }
  else if (what == 1) for (int i = 0; i < 4; i++) sym_assert(dW[i] == (at % 3 == 1 || at % 3 == 2 * (i % 2) ? v : 0.0), "the weight gradient is exact");
  else for (int y = 0; y < 2; y++) for (int x = 0; x < 3; x++) sym_assert(dX(x, y) == (x == 1 || x == 2 * (at % 2) ? v : 0.0), "the input gradient is exact");
  sym_reach("exact");
}
