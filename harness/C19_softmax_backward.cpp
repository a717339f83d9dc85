//@ entry c19_gradient reach=value
//@ entry c19_slots reach=slots
//@ entry c19_wide reach=wide
//@ entry c19_label reach=bad,good,missing
//@ entry c19_long reach=long
//@ entry c19_exact fp=ieee reach=exact
//@ bounds quick: 2..3 classes, every label, scores any real number; 3 batch slots; c19_wide: 10 classes, 12 slots; c19_long: 300 classes, 300 slots; c19_exact: IEEE doubles
//@ bounds thorough: up to 4 classes
//@ assume exp and log as real functions; the gradient is judged for the natural-log cross entropy, whose derivative by the scores is probability minus one-hot
#include <cmath>
#include "ly.h"
ENTRY(c19_gradient) {
  int n = sym_dim("n", 1, sym_tier() ? 4 : 3), l = sym_dim("label", 0, n - 1); Softmax s(n); s.setBatchSize(1); RD in = symRef<double>("in", n, 1, 1); SimpleMatrix<double> Z = s.propagateForward(toMatrix(in), 0); s.assignTrueLabel(l);
  SimpleMatrix<double> D = s.propagateBackward(toMatrix(in), Z, SimpleMatrix<double>(), 0, false); double t = 0; sym_assert(D.dim() == dim3(n, 1, 1), "shape of the scores");
  for (int i = 0; i < n; i++) { sym_close(D[i], Z[i] - (i == l ? 1 : 0), "derivative of the cross entropy"); t += D[i]; sym_assert(i == l ? D[i] <= 0 : D[i] >= 0, "only the true class is pushed up"); }
  sym_close(t, 0, "gradient sums to zero"); sym_reach("value");
}
ENTRY(c19_slots) { // every slot of the batch has its own label
  int p[3]; for (int i = 0; i < 3; i++) p[i] = sym_dim("label", 0, 2); int order = sym_dim("order", 0, 2); Softmax s(3); s.setBatchSize(3);
  for (int i = 0; i < 3; i++) { int k = (i + order) % 3; s.assignTrueLabel(p[k], k); }
  bool row = sym_fork(sym_bool("row")); RD z = row ? symRef<double>("z", 1, 3, 1) : symRef<double>("z", 3, 1, 1); SimpleMatrix<double> Z = toMatrix(z);
  for (int k = 0; k < 3; k++) { SimpleMatrix<double> D = s.propagateBackward(Z, Z, SimpleMatrix<double>(), k, false); sym_assert(D.dim() == Z.dim(), "shape of the scores"); for (int i = 0; i < 3; i++) sym_close(D[i], z.v[i] - (i == p[k] ? 1 : 0), "label of this slot"); }
  sym_reach("slots");
}
ENTRY(c19_label) {
  int n = sym_dim("n", 1, 3), l = sym_dim("label", 0, 4), how = sym_dim("how", 0, 1); Softmax s(n); SimpleMatrix<double> Z(dim3(n, 1, 1), 0.25);
  if (how == 0) { s.setBatchSize(2); sym_assert(rejects([&] { s.propagateBackward(Z, Z, SimpleMatrix<double>(), 1, false); }), "no gradient without a label"); if (l < n) { s.assignTrueLabel(l, 0); sym_assert(rejects([&] { s.propagateBackward(Z, Z, SimpleMatrix<double>(), 1, false); }), "another slot's label does not count"); sym_assert(!rejects([&] { s.propagateBackward(Z, Z, SimpleMatrix<double>(), 0, false); }), "labelled slot"); } s.setBatchSize(2); sym_assert(rejects([&] { s.propagateBackward(Z, Z, SimpleMatrix<double>(), 0, false); }), "labels of an earlier batch do not count"); sym_reach("missing"); return; }
  bool r = rejects([&] { s.assignTrueLabel(l); }); sym_assert(r == (l >= n), "a label outside the classes is rejected"); sym_reach(r ? "bad" : "good");
}
ENTRY(c19_wide) {
  int n = 10, o = sym_dim("offset", 0, 9); Softmax s(n); s.setBatchSize(12); RD z = symRef<double>("z", n, 1, 1); SimpleMatrix<double> Z = toMatrix(z); for (int k = 0; k < 12; k++) s.assignTrueLabel((k * 7 + o) % n, (k * 5) % 12);
  for (int k = 0; k < 12; k++) { SimpleMatrix<double> D = s.propagateBackward(Z, Z, SimpleMatrix<double>(), (k * 5) % 12, false); sym_assert(D.dim() == dim3(n, 1, 1), "shape of the scores"); for (int i = 0; i < n; i++) sym_close(D[i], z.v[i] - (i == (k * 7 + o) % n ? 1 : 0), "label of this slot"); } sym_reach("wide");
}
ENTRY(c19_long) { // many classes, and many slots
  bool many = sym_fork(sym_bool("slots")); bool row = sym_fork(sym_bool("row")); int n = many ? 2 : 300, B = many ? 300 : 3; Softmax s(n); s.setBatchSize(B); RD z = row ? symRef<double>("z", 1, n, 1) : symRef<double>("z", n, 1, 1); SimpleMatrix<double> Z = toMatrix(z); for (int k = 0; k < B; k++) s.assignTrueLabel((k * 7 / 3 + n - 4 + n) % n, k);
  for (int k = 0; k < B; k++) { SimpleMatrix<double> D = s.propagateBackward(Z, Z, SimpleMatrix<double>(), k, false); sym_assert(D.dim() == Z.dim(), "shape of the scores"); for (int i = 0; i < n; i++) sym_close(D[i], z.v[i] - (i == (k * 7 / 3 + n - 4 + n) % n ? 1 : 0), "label of this slot"); } sym_reach("long");
}
ENTRY(c19_exact) { // double precision, not that of something narrower
  int n = 3, t = sym_dim("label", 0, 2), at = sym_dim("at", 0, 2); double p = sym_double("p"); sym_assume(p >= 0 && p <= 1); Softmax s(n); s.assignTrueLabel(t); SimpleMatrix<double> Z(dim3(n, 1, 1), 0.25), D; Z[at] = p; D = s.propagateBackward(Z, Z, SimpleMatrix<double>(), 0, true); sym_assert(D[at] == (at == t ? p - 1 : p), "probability minus one-hot, in the precision of the elements"); sym_reach("exact");
}
