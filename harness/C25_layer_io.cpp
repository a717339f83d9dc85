//@ entry c25_kernel reach=kernel
//@ entry c25_full reach=full,unused
//@ entry c25_large reach=large
//@ entry c25_wide reach=kernel,full,matrix
//@ entry c25_long reach=matrix,pool,kernel,full
//@ entry c25_pool reach=pool
//@ entry c25_activation reach=activation
//@ entry c25_matrix reach=matrix,empty,int
//@ entry c25_sequence reach=sequence
//@ bounds quick: kernels up to 2x2x2 with 1..2 filters and stride 1..2, fully connected up to 3 -> 2, every pooling type, pool 1..3 and stride 1..3, every activation, matrices up to 2x2x2 (and with a zero dimension); parameters any value within +-1e6; c25_large: given values of every magnitude up to 1e15 next to one another; c25_wide: kernel 3x2x3 with 4 filters, fully connected 12 -> 5, matrix 5x4x3; c25_long: matrices with 300 rows, columns or layers, pools and strides up to 70000, 300 filters, 300 inputs or outputs
//@ bounds thorough: kernels up to 3x3x2 with 1..3 filters
//@ assume a number is read back as some value within the printed precision of what was written
#include <cmath>
#include <sstream>
#include "ly.h"
static void within(const SimpleMatrix<double> &m, const RD &r, const char *l) { sym_assert(m.dim() == dim3(r.X, r.Y, r.Z), l); EACH(r, x, y, z) { double d = m(x, y, z) - r.at(x, y, z); sym_assert(d <= 1e-6 && d >= -1e-6, l); } }
static void kernel(int X, int Y, int Z, int n, int s) {
  Kernel k(dim3(X, Y, Z), n, s); RD w = setParams(k.weights, "w"), b = setParams(k.biases, "b"); std::stringstream ss; ss << k.serialize(); Kernel q(dim3(1, 2, 1), 1, 4 - s);
  sym_assert(q.deserialize(ss), "a saved layer can be loaded"); within(q.weights, w, "weights survive"); within(q.biases, b, "biases survive"); sym_assert(q.num_filters == (unsigned)n, "number of filters survives");
  SimpleMatrix<double> in(dim3(X + s, Y, Z), 1.0); sym_assert(q.outputSize(in) == dim3(2, 1, n) && q.stride == k.stride && q.checkSize(in), "the loaded layer accepts what the saved one accepts"); q.setBatchSize(1);
  SimpleMatrix<double> a = k.propagateForward(SimpleMatrix<double>(in)), c = q.propagateForward(SimpleMatrix<double>(in)); sym_assert(a.dim() == c.dim(), "same output shape"); for (size_t i = 0; i < a.size(); i++) { double d = a[i] - c[i]; sym_assert(d <= 1e-4 && d >= -1e-4, "the loaded layer computes what the saved one computes"); }
  sym_reach("kernel");
}
ENTRY(c25_kernel) { int N = sym_tier() ? 3 : 2; int X = sym_dim("X", 1, N), Y = sym_dim("Y", 1, N), Z = sym_dim("Z", 1, 2), n = sym_dim("n", 1, N); int s = sym_dim("stride", 1, 2); kernel(X, Y, Z, n, s); }
static void full(int n, int X) {
  ConnectedLayer c(n), q(1); if (X) c.checkSize(SimpleMatrix<double>(dim3(1, X, 1), 0.0)); RD w = X ? setParams(c.weights, "w") : RD(0, 0, 0), b = setParams(c.biases, "b"); std::stringstream ss; ss << c.serialize();
  sym_assert(q.deserialize(ss), "a saved layer can be loaded"); within(q.biases, b, "biases survive"); if (!X) { sym_assert(q.checkSize(SimpleMatrix<double>(dim3(2, 1, 1), 0.0)) && q.weights.dim() == dim3(n, 2, 1), "a layer saved before its first use still takes its size from the first input"); sym_reach("unused"); return; }
  within(q.weights, w, "weights survive"); sym_assert(q.checkSize(SimpleMatrix<double>(dim3(X, 1, 1), 0.0)) && !q.checkSize(SimpleMatrix<double>(dim3(X + 1, 1, 1), 0.0)), "the loaded layer accepts what the saved one accepts"); within(q.weights, w, "loading initialises the layer");
  SimpleMatrix<double> in(dim3(1, X, 1), 1.0), a = c.propagateForward(SimpleMatrix<double>(in)), d = q.propagateForward(SimpleMatrix<double>(in)); sym_assert(a.dim() == d.dim(), "same output shape"); for (size_t i = 0; i < a.size(); i++) { double e = a[i] - d[i]; sym_assert(e <= 1e-4 && e >= -1e-4, "the loaded layer computes what the saved one computes"); }
  q.setBatchSize(1); SimpleMatrix<double> g = q.propagateBackward(in, a, SimpleMatrix<double>(dim3(n, 1, 1), 1.0), 0, false); sym_assert(g.dim() == in.dim(), "a loaded layer can be trained further"); sym_reach("full");
}
ENTRY(c25_full) { int n = sym_dim("n", 1, 2), X = sym_dim("X", 0, 3); full(n, X); }
ENTRY(c25_pool) {
  int kind = sym_dim("kind", 0, 2), P = sym_dim("P", 1, 3), Q = sym_dim("Q", 1, 3), sx = sym_dim("sx", 1, 3), sy = sym_dim("sy", 1, 3); Pooling p(dim2(P, Q), dim2(sx, sy), kind == 0 ? my_cnn::MAX : kind == 1 ? my_cnn::MIN : my_cnn::AVG), q(dim2(2, 2), dim2(1, 2), kind == 0 ? my_cnn::AVG : my_cnn::MAX);
  std::stringstream ss; ss << p.serialize(); sym_assert(q.deserialize(ss), "a saved layer can be loaded"); sym_assert(q.outputSize(dim3(7, 8, 2)) == p.outputSize(dim3(7, 8, 2)), "pool and stride survive"); RD in(4, 3, 1); for (int i = 0; i < 12; i++) in.v[i] = (i * 7) % 12; expectSame(q.propagateForward(toMatrix(in)), fromMatrix(p.propagateForward(toMatrix(in))), "the loaded layer pools as the saved one"); sym_reach("pool");
}
ENTRY(c25_activation) {
  int k = sym_dim("kind", 0, 4), j = sym_dim("other", 0, 4); Activation a((my_cnn::ModelActivationFunction)k), b((my_cnn::ModelActivationFunction)j); std::stringstream ss; ss << a.serialize(); sym_assert(b.deserialize(ss), "a saved layer can be loaded"); RD in = symRef<double>("in", 2, 1, 1), g = symRef<double>("g", 2, 1, 1);
  expectSame(b.propagateForward(toMatrix(in)), fromMatrix(a.propagateForward(toMatrix(in))), "the loaded layer computes what the saved one computes"); expectSame(b.propagateBackward(toMatrix(in), toMatrix(in), toMatrix(g), 0, false), fromMatrix(a.propagateBackward(toMatrix(in), toMatrix(in), toMatrix(g), 0, false)), "the loaded layer has the gradient of the saved one"); sym_reach("activation");
}
static void matrix(int X, int Y, int Z) {
  std::stringstream ss; RD r = symRef<double>("m", X, Y, Z); SimpleMatrix<double> m(dim3(X, Y, Z)); EACH(r, x, y, z) m(x, y, z) = r.at(x, y, z); m.serialize(ss); ss << "next\n"; SimpleMatrix<double> q(dim3(1, 2, 1), 5.0); sym_assert(q.deserialize(ss), "a saved matrix can be loaded");
  if (X * Y * Z) within(q, r, "elements survive in place"); else { sym_assert(q.size() == 0, "an empty matrix stays empty"); sym_reach("empty"); } std::string l; std::getline(ss, l); sym_assert(l == "next", "reading stops where the matrix ends");
  SimpleMatrix<int> im(dim3(X, Y, Z)), iq; for (size_t i = 0; i < im.size(); i++) im[i] = (int)(i * 37) - 100; std::stringstream s2; im.serialize(s2); sym_assert(iq.deserialize(s2), "a saved matrix can be loaded"); sym_assert(iq.size() == im.size(), "size"); for (size_t i = 0; i < im.size(); i++) sym_assert(iq[i] == im[i], "integers survive exactly"); sym_reach("int"); sym_reach("matrix");
}
ENTRY(c25_matrix) { int X = sym_dim("X", 0, 2), Y = sym_dim("Y", 0, 2), Z = sym_dim("Z", 0, 2); matrix(X, Y, Z); }
ENTRY(c25_large) { // numbers of any width stay apart
  double V[] = {1, -1234567890.5, 1e15, -0.0000004, 123456789.125, -1e12, 0.5, -99999999.5, 1e-9, -1e9, 7, 12345678.75}; int a = sym_dim("first", 0, 11), b = sym_dim("second", 0, 11); SimpleMatrix<double> m(dim3(1, 3, 2)), q; m[0] = V[a]; m[1] = V[b]; m[2] = -1; m[3] = V[b]; m[4] = V[a]; m[5] = 2; std::stringstream ss; m.serialize(ss);
  sym_assert(q.deserialize(ss), "a saved matrix can be loaded"); sym_assert(q.dim() == m.dim(), "size survives"); for (int i = 0; i < 6; i++) { double d = q[i] - m[i]; sym_assert(d <= 1e-6 && d >= -1e-6, "large and small values survive side by side"); } sym_reach("large");
}
ENTRY(c25_wide) { int k = sym_dim("k", 0, 2); if (k == 0) kernel(3, 2, 3, 4, 2); else if (k == 1) full(5, 12); else matrix(5, 4, 3); }
ENTRY(c25_sequence) { // layers written one after another are read back one after another
  int o = sym_dim("order", 0, 2); Kernel k(dim3(1, 1, 1), 1, 1); Pooling p(dim2(2, 1), dim2(1, 2), my_cnn::MIN); ConnectedLayer c(1); c.checkSize(SimpleMatrix<double>(dim3(2, 1, 1), 0.0)); Activation a(my_cnn::SIGMOID); my_cnn::ModelLayer *L[] = {&k, &p, &c, &a}; std::stringstream ss; for (int i = 0; i < 4; i++) ss << L[(i + o) % 4]->serialize();
  Kernel k2(dim3(2, 1, 1), 1, 1); Pooling p2(dim2(1, 1), dim2(1, 1), my_cnn::MAX); ConnectedLayer c2(2); Activation a2(my_cnn::LINEAR); my_cnn::ModelLayer *Q[] = {&k2, &p2, &c2, &a2}; for (int i = 0; i < 4; i++) sym_assert(Q[(i + o) % 4]->deserialize(ss), "every layer of the sequence can be loaded");
  for (int i = 0; i < 4; i++) sym_assert(Q[i]->serialize() == L[i]->serialize(), "a loaded layer is saved the same way again"); sym_reach("sequence");
}
ENTRY(c25_long) { // hundreds of rows, columns, layers, filters, units
  int k = sym_dim("k", 0, 7); if (k < 3) matrix(k == 0 ? 300 : 1, k == 1 ? 300 : 1, k == 2 ? 300 : 1);
  if (k == 3) { Pooling p(dim2(300, 2), dim2(70000, 301), my_cnn::MIN), q(dim2(2, 2), dim2(1, 2), my_cnn::AVG); std::stringstream ss; ss << p.serialize(); sym_assert(q.deserialize(ss), "a saved layer can be loaded"); for (int w : {299, 300, 1000}) for (int h : {2, 302, 303, 900}) sym_assert(q.outputSize(dim3(w, h, 2)) == p.outputSize(dim3(w, h, 2)) && q.checkSize(SimpleMatrix<double>(dim3(w, h, 1))) == p.checkSize(SimpleMatrix<double>(dim3(w, h, 1))), "pool and stride survive"); sym_assert(p.outputSize(dim3(70301, 2, 1)) == q.outputSize(dim3(70301, 2, 1)), "pool and stride survive"); sym_reach("pool"); }
  auto fill = [](SimpleMatrix<double> &m) { for (size_t i = 0; i < m.size(); i++) m[i] = ((i * 37) % 1009) * 0.25 - 100; }; auto same = [](const SimpleMatrix<double> &a, const SimpleMatrix<double> &b) { sym_assert(a.dim() == b.dim(), "parameters survive"); if (a.dim() != b.dim()) return; for (size_t i = 0; i < a.size(); i++) { double d = a[i] - b[i]; sym_assert(d <= 1e-6 && d >= -1e-6, "parameters survive"); } };
  if (k == 4 || k == 5) { Kernel a(k == 4 ? dim3(1, 1, 1) : dim3(1, 300, 1), k == 4 ? 300 : 1, 300), q(dim3(1, 2, 1), 1, 1); fill(a.weights); fill(a.biases); std::stringstream ss; ss << a.serialize(); sym_assert(q.deserialize(ss), "a saved layer can be loaded"); same(q.weights, a.weights); same(q.biases, a.biases); sym_assert(q.num_filters == a.num_filters && q.stride == 300, "configuration survives"); sym_reach("kernel"); }
  if (k > 5) { ConnectedLayer a(k == 6 ? 300 : 2), q(1); a.checkSize(SimpleMatrix<double>(dim3(k == 6 ? 2 : 300, 1, 1), 0.0)); fill(a.weights); fill(a.biases); std::stringstream ss; ss << a.serialize(); sym_assert(q.deserialize(ss), "a saved layer can be loaded"); same(q.weights, a.weights); same(q.biases, a.biases); sym_reach("full"); }
}
