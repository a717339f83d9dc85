//@ entry c20_kernel reach=update,partial,empty
//@ entry c20_full reach=update,partial,empty
//@ entry c20_wide reach=update,partial
//@ entry c20_once reach=once
//@ entry c20_exact fp=ieee reach=exact
//@ entry c20_long reach=long
//@ entry c20_huge reach=huge steps=150000000
//@ entry c20_new reach=new
//@ bounds quick: c20_new: a batch abandoned after 1..2 of 2 gradients, then one of 1..3 slots; batches of 1..3 slots, every subset of slots filled in every order of two fillings, kernels 1x2x1 with 2 filters, fully connected 2 -> 2; gradients, inputs, parameters and learning rate symbolic; c20_wide: batches of 11 slots, all or some filled; c20_exact: IEEE doubles, one weight and bias, two slots, any double between 1 and 1e200 as parameter, gradient or learning rate; c20_long: 300 slots, all, every third or the last 40 filled; c20_huge: 70000 weights, or 70000 slots of which 5 are filled
//@ bounds thorough: batches of up to 4 slots
#include "ly.h"
// an update moves the parameters by the learning rate times the mean gradient of the data points processed since the last update
template <class L> static void batch(L &l, const RD &w0, const RD &b0, int n, int mask, int rep, double lr, int X, int Y, int Z, int gx, int gy, int gz, RD (*gw)(const RD &, const RD &, const RD &), RD (*gb)(const RD &, const RD &)) {
  RD w = w0, b = b0, sw(w.X, w.Y, w.Z), sb(b.X, b.Y, b.Z); l.setBatchSize(n); int cnt = 0;
  for (int k = 0; k < n; k++) { int i = rep ? n - 1 - k : k; if (!((mask >> i) & 1)) continue;
    RD in = symRef<double>("in", X, Y, Z), g = symRef<double>("g", gx, gy, gz); SimpleMatrix<double> I = toMatrix(in);
    l.propagateBackward(I, I, toMatrix(g), i, true); RD dw = gw(in, w, g), db = gb(in, g); cnt++;
    for (size_t q = 0; q < sw.v.size(); q++) sw.v[q] += dw.v[q]; for (size_t q = 0; q < sb.v.size(); q++) sb.v[q] += db.v[q]; }
  l.applyBatch(lr); if (cnt) { for (size_t q = 0; q < w.v.size(); q++) w.v[q] -= lr * sw.v[q] / cnt; for (size_t q = 0; q < b.v.size(); q++) b.v[q] -= lr * sb.v[q] / cnt; }
  expectSame(l.weights, w, "weights move by the learning rate times the mean gradient of the processed data points"); expectSame(l.biases, b, "biases move by the learning rate times the mean gradient of the processed data points");
  sym_reach("update"); if (cnt == 0) sym_reach("empty"); else if (cnt < n) sym_reach("partial");
}
static RD kW(const RD &in, const RD &w, const RD &g) { return refConvW(in, w, g, 2, 1); }
static RD kB(const RD &, const RD &g) { return refConvB(g); }
static RD fW(const RD &in, const RD &w, const RD &g) { RD o(w.X, w.Y, 1); EACH(o, i, j, z) o.at(i, j, 0) = g.v[i] * in.v[j]; return o; }
static RD fB(const RD &, const RD &g) { return g; }
ENTRY(c20_kernel) {
  int n = sym_dim("n", 1, sym_tier() ? 4 : 3), mask = sym_dim("mask", 0, (1 << n) - 1), rev = sym_dim("reversed", 0, 1); double lr = sym_double("rate");
  Kernel k(dim3(1, 2, 1), 2, 1); RD w = setParams(k.weights, "w"), b = setParams(k.biases, "b"); batch(k, w, b, n, mask, rev, lr, 2, 2, 1, 2, 1, 2, kW, kB);
}
ENTRY(c20_full) {
  int n = sym_dim("n", 1, sym_tier() ? 4 : 3), mask = sym_dim("mask", 0, (1 << n) - 1), rev = sym_dim("reversed", 0, 1); double lr = sym_double("rate");
  ConnectedLayer c(2); c.checkSize(SimpleMatrix<double>(dim3(1, 2, 1), 0.0)); RD w = setParams(c.weights, "w"), b = setParams(c.biases, "b"); batch(c, w, b, n, mask, rev, lr, 1, 2, 1, 2, 1, 1, fW, fB);
}
ENTRY(c20_once) { // a gradient takes part in exactly one update: a second, smaller batch is not polluted by the first
  int which = sym_dim("layer", 0, 1), m1 = sym_dim("first", 0, 3), m2 = sym_dim("second", 0, 3), again = sym_dim("resize", 0, 1);
  Kernel k(dim3(1, 1, 1), 1, 1); ConnectedLayer c(1); c.checkSize(SimpleMatrix<double>(dim3(1, 1, 1), 0.0)); my_cnn::ModelLayer &l = which ? (my_cnn::ModelLayer &)c : (my_cnn::ModelLayer &)k;
  double w = sym_double("w"), b = sym_double("b"), lr = sym_double("rate"); l.weights[0] = w; l.biases[0] = b; l.setBatchSize(2);
  for (int r = 0; r < 2; r++) { double sw = 0, sb = 0; int cnt = 0, m = r ? m2 : m1;
    for (int i = 0; i < 2; i++) if ((m >> i) & 1) { double x = sym_double("in"), g = sym_double("g"); SimpleMatrix<double> I(dim3(1, 1, 1), x), G(dim3(1, 1, 1), g); l.propagateBackward(I, I, G, i, true); sw += x * g; sb += g; cnt++; }
    l.applyBatch(lr); if (cnt) { w -= lr * sw / cnt; b -= lr * sb / cnt; }
    sym_close(l.weights[0], w, "each gradient is applied once"); sym_close(l.biases[0], b, "each gradient is applied once");
    if (again && r == 0) l.setBatchSize(2); }
  l.applyBatch(lr); sym_close(l.weights[0], w, "an update without data points changes nothing"); sym_close(l.biases[0], b, "an update without data points changes nothing"); sym_reach("once");
}
ENTRY(c20_wide) {
  int which = sym_dim("layer", 0, 1), mask = sym_dim("mask", 0, 3), rev = sym_dim("reversed", 0, 1); static const int masks[] = {2047, 1023, 1366, 1}; double lr = sym_double("rate");
  if (which) { ConnectedLayer c(2); c.checkSize(SimpleMatrix<double>(dim3(1, 2, 1), 0.0)); RD w = setParams(c.weights, "w"), b = setParams(c.biases, "b"); batch(c, w, b, 11, masks[mask], rev, lr, 1, 2, 1, 2, 1, 1, fW, fB); }
  else { Kernel k(dim3(1, 2, 1), 2, 1); RD w = setParams(k.weights, "w"), b = setParams(k.biases, "b"); batch(k, w, b, 11, masks[mask], rev, lr, 2, 2, 1, 2, 1, 2, kW, kB); }
}
ENTRY(c20_exact) { // a parameter, gradient or learning rate of any value, zeros and ones elsewhere: nothing is rounded
  int which = sym_dim("layer", 0, 1), what = sym_dim("what", 0, 2), slot = sym_dim("slot", 0, 1); double v = posDouble("v"); sym_assume(v >= 1); Kernel k(dim3(1, 1, 1), 1, 1); ConnectedLayer c(1); c.checkSize(SimpleMatrix<double>(dim3(1, 1, 1), 0.0)); my_cnn::ModelLayer &l = which ? (my_cnn::ModelLayer &)c : (my_cnn::ModelLayer &)k;
  l.weights[0] = l.biases[0] = what == 0 ? v : 0; l.setBatchSize(2); SimpleMatrix<double> I(dim3(1, 1, 1), 1.0), G(dim3(1, 1, 1), what == 0 ? 0.0 : what == 1 ? v : 1.0); l.propagateBackward(I, I, G, slot, true); l.applyBatch(what == 2 ? v : 1.0);
  sym_assert(l.weights[0] == (what ? -v : v) && l.biases[0] == (what ? -v : v), "the update is exact"); sym_reach("exact");
}
ENTRY(c20_long) { // hundreds of slots, all or some filled
  int which = sym_dim("layer", 0, 1), some = sym_dim("some", 0, 2), n = 300, cnt = 0; Kernel k(dim3(1, 1, 1), 1, 1); ConnectedLayer c(1); c.checkSize(SimpleMatrix<double>(dim3(1, 1, 1), 0.0)); my_cnn::ModelLayer &l = which ? (my_cnn::ModelLayer &)c : (my_cnn::ModelLayer &)k;
  double w = sym_double("w"), b = sym_double("b"), lr = sym_double("rate"), sw = 0, sb = 0; l.weights[0] = w; l.biases[0] = b; l.setBatchSize(n);
  for (int i = 0; i < n; i++) { if (some == 1 && i % 3) continue; if (some == 2 && i < 260) continue; double x = sym_double("in"), g = sym_double("g"); SimpleMatrix<double> I(dim3(1, 1, 1), x), G(dim3(1, 1, 1), g); l.propagateBackward(I, I, G, i, true); sw += x * g; sb += g; cnt++; }
  l.applyBatch(lr); sym_close(l.weights[0], w - lr * sw / cnt, "weights move by the learning rate times the mean gradient of the processed data points"); sym_close(l.biases[0], b - lr * sb / cnt, "biases move by the learning rate times the mean gradient of the processed data points"); sym_reach("long");
}
ENTRY(c20_huge) { // more parameters than 16 bits can count, or more slots
  int how = sym_dim("how", 1, 2), n = 70000, at = 65537; double lr = sym_double("rate"), g = sym_double("g"), w = sym_double("w"); ConnectedLayer c(1);
  if (how == 2) { Kernel s(dim3(1, 1, 1), 1, 1); s.setBatchSize(n); s.weights[0] = w; s.biases[0] = 1; SimpleMatrix<double> I(dim3(1, 1, 1), 3.0), G(dim3(1, 1, 1), g), H(dim3(1, 1, 1), 1.0); for (int i : {0, 4464, 65535, 65536}) s.propagateBackward(I, I, H, i, true); s.propagateBackward(I, I, G, n - 1, true); s.applyBatch(lr); sym_close(s.weights[0], w - lr * (12 + 3 * g) / 5, "weights move by the learning rate times the mean gradient of the processed data points"); sym_close(s.biases[0], 1 - lr * (4 + g) / 5, "biases move by the learning rate times the mean gradient of the processed data points"); sym_reach("huge"); return; }
  my_cnn::ModelLayer &l = c; SimpleMatrix<double> I(dim3(n, 1, 1), 3.0), G(dim3(1, 1, 1), g); c.checkSize(I); for (auto &e : l.weights) e = 2; l.weights[at] = w; l.setBatchSize(2); l.propagateBackward(I, I, G, 0, true); l.propagateBackward(I, I, SimpleMatrix<double>(G), 1, true); l.applyBatch(lr);
  for (int i : {0, 1, 4464, 65535, 65536, at, n - 1}) sym_close(l.weights[i], (i == at ? w : 2.0) - lr * 3 * g, "weights move by the learning rate times the mean gradient of the processed data points"); sym_reach("huge");
}
ENTRY(c20_new) { // starting a new batch drops what the abandoned one left
  int which = sym_dim("layer", 0, 1), m1 = sym_dim("first", 1, 3), n2 = sym_dim("n", 1, 3), m2 = sym_dim("second", 0, 7); sym_assume(m2 < (1 << n2)); Kernel k(dim3(1, 1, 1), 1, 1); ConnectedLayer c(1); c.checkSize(SimpleMatrix<double>(dim3(1, 1, 1), 0.0)); my_cnn::ModelLayer &l = which ? (my_cnn::ModelLayer &)c : (my_cnn::ModelLayer &)k;
  double w = sym_double("w"), b = sym_double("b"), lr = sym_double("rate"); l.weights[0] = w; l.biases[0] = b;
  for (int r = 0; r < 2; r++) { l.setBatchSize(r ? n2 : 2); double sw = 0, sb = 0; int cnt = 0, m = r ? m2 : m1;
    for (int i = 0; i < (r ? n2 : 2); i++) if ((m >> i) & 1) { double x = sym_double("in"), g = sym_double("g"); SimpleMatrix<double> I(dim3(1, 1, 1), x), G(dim3(1, 1, 1), g); l.propagateBackward(I, I, G, i, true); sw += x * g; sb += g; cnt++; }
    if (!r) continue; l.applyBatch(lr); if (cnt) { w -= lr * sw / cnt; b -= lr * sb / cnt; } sym_close(l.weights[0], w, "a new batch holds its own gradients only"); sym_close(l.biases[0], b, "a new batch holds its own gradients only"); }
  sym_reach("new");
}
