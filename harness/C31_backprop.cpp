//@ entry c31_dense reach=RELU,SIGMOID,LINEAR,TANGENT,LEAKY
//@ entry c31_conv reach=plain,pool,act
//@ entry c31_deep reach=deep
//@ entry c31_stack reach=stack,max,twice
//@ entry c31_tall reach=tall
//@ entry c31_batch reach=batch
//@ bounds quick: c31_tall: one stack of ten layers (convolution, leaky, maximum, convolution, tanh, mean, convolution, fully connected, leaky, fully connected), trained on one data point with batches of 1..3 and 1..2 threads; two fully connected layers (2 -> 1..2 -> 2) with every activation between them; convolution (1..2 filters) then optional activation, optional average pooling and a fully connected layer; two convolutions; batches of 1..2 data points; c31_stack: every stack of three layers out of convolution (2 filters), the five activations, maximum, minimum and mean pooling and a fully connected layer, before the fully connected output, given inputs and inner parameters, any gradient at the scores and any learning rate; inputs, parameters and learning rate symbolic, both labels
//@ bounds thorough: dense layers 2..3 -> 1..3 -> 2
//@ assume what each layer computes forward (decided by the inference properties): the gradient is judged against the stored intermediate results; the gradient at the scores is the reported probability minus the one-hot label (decided by the softmax-gradient property); piecewise-linear activations away from the kink; sigmoid and tanh as real functions
#include <cmath>
#include "ml.h"
static const char *names[] = {"RELU", "SIGMOID", "LINEAR", "TANGENT", "LEAKY"};
static double G(int k, double x) { switch (k) { case 0: return x > 0 ? 1 : 0; case 1: { double s = 1 / (1 + std::exp(-x)); return s * (1 - s); } case 2: return 1; case 3: { double t = std::tanh(x); return 1 - t * t; } default: return x > 0 ? 1 : 0.1; } }
static void kink(int k, const RD &a) { for (double e : a.v) if (k == 0 || k == 4) { sym_assume(e != 0); sym_fork(e > 0); } }
static RD actG(int k, const RD &a, const RD &g) { RD o = g; for (size_t i = 0; i < o.v.size(); i++) o.v[i] = g.v[i] * G(k, a.v[i]); return o; }
// gradients of a fully connected layer: weights and input
static RD fullW(const RD &in, const RD &w, const RD &g) { RD o(w.X, w.Y, 1); EACH(o, i, j, z) o.at(i, j, 0) = g.v[i] * in.v[j]; return o; }
static RD fullX(const RD &in, const RD &w, const RD &g) { RD o(in.X, in.Y, in.Z); for (int j = 0; j < w.Y; j++) { double s = 0; for (int i = 0; i < w.X; i++) s += w.at(i, j, 0) * g.v[i]; o.v[j] = s; } return o; }
static void step(RD &p, const RD &g, double lr) { for (size_t i = 0; i < p.v.size(); i++) p.v[i] -= lr * g.v[i]; }
// run the real model on one data point and return the gradient at the scores
static RD scores(Model &m, const RD &in, int t, size_t slot, std::vector<RD> *stored = nullptr) {
  Results r = m.forwardPropagation(toMatrix(in), slot); m.backwardsPropagation(r, t ? "b" : "a", slot);
  RD g = fromMatrix(r.layer_inputs.back()); sym_assert(g.v.size() == 2, "two outputs"); g.v[t] -= 1; if (stored) for (auto &l : r.layer_inputs) stored->push_back(fromMatrix(l)); return g;
}
static void batchSize(Model &m, int n) { for (auto &l : m.layers) l->setBatchSize(n); }
static void apply(Model &m, double lr) { for (auto &l : m.layers) l->applyBatch(lr); }
ENTRY(c31_dense) {
  int T = sym_tier(), k = sym_dim("kind", 0, 4), n = sym_dim("n", 2, 2 + T), h = sym_dim("h", 1, 2 + T), t = sym_dim("label", 0, 1); double lr = sym_double("rate");
  Model m; ConnectedLayer &a = m.addConnectedLayer(h); m.addActivation((my_cnn::ModelActivationFunction)k); ConnectedLayer &b = m.addConnectedLayer(2); m.setOutputLabels({"a", "b"});
  RD in = symRef<double>("in", n, 1, 1); a.checkSize(toMatrix(in)); b.checkSize(SimpleMatrix<double>(dim3(h, 1, 1), 0.0));
  RD w = setParams(a.weights, "w"), c = setParams(a.biases, "c"), v = setParams(b.weights, "v"), d = setParams(b.biases, "d"); batchSize(m, 1);
  std::vector<RD> L; RD g = scores(m, in, t, 0, &L); RD z = L[1], y = L[2]; kink(k, z); apply(m, lr);
  RD gy = fullX(y, v, g), gz = actG(k, z, gy); RD dv = fullW(y, v, g), dw = fullW(in, w, gz); step(v, dv, lr); step(d, g, lr); step(w, dw, lr); step(c, gz, lr);
  expectSame(b.weights, v, "weights of the last layer move down the gradient of the loss"); expectSame(b.biases, d, "biases of the last layer move down the gradient of the loss"); expectSame(a.weights, w, "weights of an inner layer move down the gradient of the loss"); expectSame(a.biases, c, "biases of an inner layer move down the gradient of the loss"); sym_reach(names[k]);
}
ENTRY(c31_conv) {
  int act = sym_dim("act", 0, 2), pool = sym_dim("pool", 0, 1), f = sym_dim("filters", 1, 2), t = sym_dim("label", 0, 1), k = act == 1 ? 3 : 4; double lr = sym_double("rate"); if (act) sym_assume(f == 1);
  Model m; Kernel &a = m.addKernel(dim3(2, 1, 1), f); if (act) m.addActivation((my_cnn::ModelActivationFunction)k); if (pool) m.addPooling(dim2(1, 2), dim2(1, 1), my_cnn::AVG); ConnectedLayer &b = m.addConnectedLayer(2); m.setOutputLabels({"a", "b"});
  RD in = symRef<double>("in", 3, 2, 1); RD w = setParams(a.weights, "w"), c = setParams(a.biases, "c");
  b.checkSize(SimpleMatrix<double>(dim3(2, 2 - pool, f), 0.0)); RD v = setParams(b.weights, "v"), d = setParams(b.biases, "d"); batchSize(m, 1); std::vector<RD> L; RD g = scores(m, in, t, 0, &L); RD z = L[1], y = L[1 + !!act], u = L[1 + !!act + pool]; if (act) kink(k, z); apply(m, lr);
  RD gu = fullX(u, v, g), gy = gu; if (pool) { gy = RD(y.X, y.Y, y.Z); EACH(gy, x, q, s) gy.at(x, q, s) = gu.at(x, 0, s) / 2; } RD gz = act ? actG(k, z, gy) : gy; RD dv = fullW(u, v, g), dw = refConvW(in, w, gz, f, 1), dc = refConvB(gz); step(v, dv, lr); step(d, g, lr); step(w, dw, lr); step(c, dc, lr);
  expectSame(b.weights, v, "weights of the last layer move down the gradient of the loss"); expectSame(b.biases, d, "biases of the last layer move down the gradient of the loss"); expectSame(a.weights, w, "weights of a convolution move down the gradient of the loss"); expectSame(a.biases, c, "biases of a convolution move down the gradient of the loss");
  if (pool) sym_reach("pool"); else sym_reach("plain"); if (act) sym_reach("act");
}
ENTRY(c31_deep) { // two convolutions: the gradient passes through the second, with channels
  int f = sym_dim("filters", 1, 2), e = sym_dim("second", 1, 2), t = sym_dim("label", 0, 1); double lr = sym_double("rate");
  Model m; Kernel &a = m.addKernel(dim3(2, 1, 1), f); Kernel &k = m.addKernel(dim3(1, 2, f), e); ConnectedLayer &b = m.addConnectedLayer(2); m.setOutputLabels({"a", "b"}); RD in = symRef<double>("in", 3, 2, 1);
  RD w = setParams(a.weights, "w"), c = setParams(a.biases, "c"), w2 = setParams(k.weights, "q"), c2 = setParams(k.biases, "r"); RD z = refConv(in, w, c, f, 1, 1), y = refConv(z, w2, c2, e, f, 1); b.checkSize(toMatrix(y)); RD v = setParams(b.weights, "v"), d = setParams(b.biases, "d"); batchSize(m, 1); RD g = scores(m, in, t, 0); apply(m, lr);
  RD gy = fullX(y, v, g), dw2 = refConvW(z, w2, gy, e, f), gz = refConvX(z, w2, gy, e, f), dw = refConvW(in, w, gz, f, 1); step(w2, dw2, lr); step(c2, refConvB(gy), lr); step(w, dw, lr); step(c, refConvB(gz), lr); RD dv = fullW(y, v, g); step(v, dv, lr);
  expectSame(b.weights, v, "weights of the last layer move down the gradient of the loss"); expectSame(k.weights, w2, "weights of the second convolution move down the gradient of the loss"); expectSame(k.biases, c2, "biases of the second convolution move down the gradient of the loss"); expectSame(a.weights, w, "weights of the first convolution move down the gradient of the loss"); expectSame(a.biases, c, "biases of the first convolution move down the gradient of the loss"); sym_reach("deep");
}
struct One : my_cnn::DataGenerator<double> { my_cnn::LabeledInput<double> p; bool left = true; my_cnn::LabeledInput<double> getNextDataPoint() override { left = false; return p; } size_t size() override { return 1; } bool hasAvailableData() override { return left; } void reset() override { left = true; } };
static void stack(int N, const int *kinds) {
  struct Step { int kind = 0; my_cnn::ModelLayer *l = nullptr; RD w{0, 0, 0}, b{0, 0, 0}; }; std::vector<Step> S; Model m; RD shape(kinds ? 8 : 5, kinds ? 5 : 4, 1), in = shape; for (size_t i = 0; i < in.v.size(); i++) in.v[i] = ((i * 7) % 20) / 9.7 - 1.03; bool max = false, twice = false; int prev = -1, seed = 1;
  auto params = [&](SimpleMatrix<double> &p) { RD r(p.dim().x, p.dim().y, p.dim().z); EACH(r, x, y, z) { seed = (seed * 37 + 11) % 101; p(x, y, z) = r.at(x, y, z) = seed / 53.0 - 0.93; } return r; };
  for (int i = 0; i < N; i++) { int k = kinds ? kinds[i] : sym_dim("layer", 0, 9); // 0 convolution, 1..5 activations, 6..8 pooling, 9 fully connected
    if ((k == 0 || (k >= 6 && k <= 8)) && shape.X < 2) k = 5; Step s; s.kind = k; twice |= k == prev; prev = k; max |= k == 6;
    if (k == 0) { Kernel &a = m.addKernel(dim3(2, shape.Y > 1 ? 2 : 1, shape.Z), 2); s.w = params(a.weights); s.b = params(a.biases); s.l = &a; shape = RD(shape.X - 1, shape.Y > 1 ? shape.Y - 1 : 1, 2); }
    else if (k <= 5) s.l = &m.addActivation((my_cnn::ModelActivationFunction)(k - 1));
    else if (k <= 8) { s.l = &m.addPooling(dim2(2, 1), dim2(1, 1), k == 6 ? my_cnn::MAX : k == 7 ? my_cnn::MIN : my_cnn::AVG); shape = RD(shape.X - 1, shape.Y, shape.Z); }
    else { ConnectedLayer &c = m.addConnectedLayer(3); c.checkSize(toMatrix(shape)); s.w = params(c.weights); s.b = params(c.biases); s.l = &c; shape = RD(3, 1, 1); } S.push_back(s); }
  ConnectedLayer &o = m.addConnectedLayer(2); o.checkSize(toMatrix(shape)); RD v = params(o.weights), d = setParams(o.biases, "d"); m.setOutputLabels({"a", "b"}); batchSize(m, 1); double lr = sym_double("rate"); std::vector<RD> L; RD gs(2, 1, 1);
  if (kinds) { Results r = m.forwardPropagation(toMatrix(in), 0); for (auto &x : r.layer_inputs) L.push_back(fromMatrix(x)); gs = L.back(); gs.v[0] -= 1; One s; s.p.data = toMatrix(in); s.p.label = "a"; Model::Hyperparameters h; h.learning_rate = lr; h.batch_size = sym_dim("batch", 1, 3); h.num_threads = sym_dim("threads", 1, 2); h.num_epochs = 1; sym_sched(0); m.train(s, h); } else gs = scores(m, in, 0, 0, &L);
  for (int i = 0; i < N; i++) if (S[i].kind == 1 || S[i].kind == 5) for (double e : L[i].v) sym_assume(e != 0); if (!kinds) apply(m, lr);
  RD dv = fullW(L[N], v, gs), g = fullX(L[N], v, gs); step(v, dv, lr); expectSame(o.weights, v, "weights of the last layer move down the gradient of the loss");
  for (int i = N - 1; i >= 0; i--) { Step &s = S[i]; RD &x = L[i]; RD p(x.X, x.Y, x.Z), dw(0, 0, 0), db(0, 0, 0); if (s.kind == 0) { dw = refConvW(x, s.w, g, 2, x.Z); db = refConvB(g); p = refConvX(x, s.w, g, 2, x.Z); } else if (s.kind <= 5) p = actG(s.kind - 1, x, g);
    else if (s.kind <= 8) EACH(g, a, b, c) { if (s.kind == 8) { p.at(a, b, c) += g.at(a, b, c) / 2; p.at(a + 1, b, c) += g.at(a, b, c) / 2; } else { bool first = s.kind == 6 ? x.at(a, b, c) >= x.at(a + 1, b, c) : x.at(a, b, c) <= x.at(a + 1, b, c); p.at(first ? a : a + 1, b, c) += g.at(a, b, c); } }
    else { dw = fullW(x, s.w, g); db = g; p = fullX(x, s.w, g); }
    if (s.kind == 0 || s.kind == 9) { step(s.w, dw, lr); step(s.b, db, lr); expectSame(s.l->weights, s.w, "weights move down the gradient of the loss"); expectSame(s.l->biases, s.b, "biases move down the gradient of the loss"); } g = p; }
  sym_reach(kinds ? "tall" : "stack"); if (kinds) return; if (max) sym_reach("max"); if (twice) sym_reach("twice");
}
ENTRY(c31_stack) { stack(3, nullptr); } // every stack of layers
ENTRY(c31_tall) { static const int kinds[] = {0, 5, 6, 0, 4, 8, 0, 9, 5, 9}; stack(10, kinds); } // one with many layers
ENTRY(c31_batch) { // a batch moves the parameters by the mean of its data points' gradients
  int n = sym_dim("n", 1, 2), t = sym_dim("labels", 0, 3); double lr = sym_double("rate"); Model m; ConnectedLayer &b = m.addConnectedLayer(2); m.setOutputLabels({"a", "b"}); b.checkSize(SimpleMatrix<double>(dim3(1, 1, 1), 0.0)); RD v = setParams(b.weights, "v"), d = setParams(b.biases, "d"), dv(2, 1, 1), dd(2, 1, 1); batchSize(m, 2);
  for (int i = 0; i < n; i++) { RD in = symRef<double>("in", 1, 1, 1); RD g = scores(m, in, (t >> i) & 1, i); RD x = fullW(in, v, g); for (int j = 0; j < 2; j++) { dv.v[j] += x.v[j] / n; dd.v[j] += g.v[j] / n; } }
  apply(m, lr); step(v, dv, lr); step(d, dd, lr); expectSame(b.weights, v, "mean gradient of the batch, weights"); expectSame(b.biases, d, "mean gradient of the batch, biases"); sym_reach("batch");
}
