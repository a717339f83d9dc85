//@ entry c36_layers reach=layers
//@ entry c36_models reach=models
//@ entry c36_threads reach=threads
//@ entry c36_init reach=init
//@ entry c36_matrices reach=matrices
//@ entry c36_parts reach=parts
//@ bounds quick: pairs of layers of every kind with equal or different configuration, forward, backward and update steps of one between those of the other; pairs of models trained alternately or by two threads at once, every interleaving at mutex and atomic operations, data races anywhere; fp as real numbers
//@ bounds thorough: as quick, with three threads
#include <thread>
#include "ml.h"
static double num(int i) { return ((i * 7 + 3) % 11) / 11.0 - 0.4; }
static void fill(SimpleMatrix<double> &m, int s) { for (size_t i = 0; i < m.size(); i++) m[i] = num(i + s); }
static SimpleMatrix<double> mat(dim3 d, int s) { SimpleMatrix<double> m(d); fill(m, s); return m; }
// one kind of layer in one of two configurations
struct Part { std::unique_ptr<my_cnn::ModelLayer> l; dim3 in; int s;
  Part(int kind, int cfg, int s) : s(s) { in = cfg == 1 ? dim3(3, 4, 1) : dim3(4, 3, 1);
    if (kind == 0) l.reset(new Kernel(cfg ? dim3(1, cfg == 2 ? 1 : 2, 1) : dim3(2, 2, 1), cfg == 1 ? 1 : 2, cfg == 2 ? 2 : 1)); else if (kind == 1) l.reset(new Pooling(cfg == 1 ? dim2(1, 2) : dim2(2, 2), cfg == 2 ? dim2(2, 2) : dim2(1, 1 + cfg), cfg == 1 ? my_cnn::MIN : cfg ? my_cnn::AVG : my_cnn::MAX)); else if (kind == 2) l.reset(new ConnectedLayer(2 + cfg)); else if (kind == 3) l.reset(new Activation(cfg == 1 ? my_cnn::RELU : cfg ? my_cnn::LINEAR : my_cnn::LEAKY_RELU)); else { in = dim3(2 + cfg, 1, 1); l.reset(new Softmax(2 + cfg)); }
    l->checkSize(mat(in, 0)); fill(l->weights, s); fill(l->biases, s + 1); l->setBatchSize(2); if (kind == 4) for (int i = 0; i < 2; i++) static_cast<Softmax *>(l.get())->assignTrueLabel((s + i) % 2, i); }
  SimpleMatrix<double> X, Z, D; RD w{0, 0, 0}; double x = 0;
  void step(int i, int slot) { if (i == 0) { X = mat(in, s + slot); X[1] = x; Z = l->propagateForward(SimpleMatrix<double>(X), slot); } else if (i == 1) D = l->propagateBackward(X, Z, mat(Z.dim(), s + 2), slot, false); else l->applyBatch(0.5); }
};
static void sameMat(const SimpleMatrix<double> &a, const SimpleMatrix<double> &b, const char *l) { expectSame(a, fromMatrix(b), l); }
ENTRY(c36_layers) { // what another layer does in between changes nothing
  int kind = sym_dim("kind", 0, 4), other = sym_dim("other", 0, 4), ca = sym_dim("config", 0, 2), cb = sym_dim("other_config", 0, 2), slot = sym_dim("slot", 0, 1); Part a(kind, ca, 1), alone(kind, ca, 1), b(other, cb, 5); double x = kind == 4 ? 0.25 : sym_double("x"); if (kind == 1) sym_assume(x < -3); a.x = alone.x = x; b.x = other == 1 ? 7 : 0.75;
  for (int i = 0; i < 3; i++) alone.step(i, slot); for (int i = 0; i < 3; i++) { b.step(i, slot); a.step(i, slot); if (i == 0) b.step(0, 1 - slot); }
  sameMat(a.Z, alone.Z, "the output does not depend on other layers"); sameMat(a.D, alone.D, "the gradient does not depend on other layers"); sameMat(a.l->weights, alone.l->weights, "the update does not depend on other layers"); sameMat(a.l->biases, alone.l->biases, "the update does not depend on other layers"); sym_reach("layers");
}
static void build(Model &m, int cfg) { m.addKernel(cfg ? dim3(1, 2, 1) : dim3(2, 1, 1), 1 + cfg); m.addPooling(dim2(1, 2), dim2(1, 1), cfg ? my_cnn::AVG : my_cnn::MAX); m.addActivation(cfg ? my_cnn::RELU : my_cnn::LEAKY_RELU); m.addConnectedLayer(2 + cfg); m.setOutputLabels(cfg ? std::vector<std::string>{"a", "b", "c"} : std::vector<std::string>{"b", "a"}); }
static SimpleMatrix<double> input(int cfg, int i) { return mat(cfg ? dim3(3, 4, 1) : dim3(3, 3, 1), i); }
static void prepare(Model &m, int cfg) { build(m, cfg); m.forwardPropagation(input(cfg, 0)); for (size_t i = 0; i < m.layers.size(); i++) { fill(m.layers[i]->weights, 2 * i); fill(m.layers[i]->biases, 2 * i + 1); m.layers[i]->setBatchSize(2); } }
static void work(Model &m, int cfg, int i, Results &r) { if (i < 4) { if (i % 2 == 0) r = m.forwardPropagation(input(cfg, i), i / 2); else m.backwardsPropagation(r, i > 2 ? "a" : "b", i / 2); } else for (auto &l : m.layers) l->applyBatch(0.5); }
static void sameModel(Model &m, Model &q) { for (size_t i = 0; i < m.layers.size(); i++) { sameMat(m.layers[i]->weights, q.layers[i]->weights, "weights do not depend on other models"); sameMat(m.layers[i]->biases, q.layers[i]->biases, "biases do not depend on other models"); } }
ENTRY(c36_models) { // training two models in turn
  int ca = sym_dim("config", 0, 1), cb = sym_dim("other_config", 0, 1), lag = sym_dim("lag", 0, 4); Model m, o, alone; Results rm, ro, ra; prepare(m, ca); prepare(o, cb); prepare(alone, ca); for (int i = 0; i < 5; i++) work(alone, ca, i, ra);
  for (int i = 0; i < 5 + lag; i++) { if (i >= lag) work(m, ca, i - lag, rm); if (i < 5) work(o, cb, i, ro); if (i == lag + 1) { const char *f = vf_path("other"); Model q; sym_assert(o.saveModel(f) && q.loadModel(f), "saving and loading another model in between"); } }
  sameModel(m, alone); sym_assert(rm.label_idx == ra.label_idx && rm.true_label_idx == ra.true_label_idx, "predictions do not depend on other models"); sym_close(rm.loss, ra.loss, "the loss does not depend on other models"); sym_reach("models");
}
ENTRY(c36_threads) { // training two models at the same time
  int ca = sym_dim("config", 0, 1), cb = sym_dim("other_config", 0, 1), turn = sym_dim("turn", 0, 3); sym_sched(turn == 3 ? -1 : turn ? -1 - turn : 0); Model m, o, am, ao; prepare(m, ca); prepare(o, cb); prepare(am, ca); prepare(ao, cb); Results r; for (int i = 0; i < 5; i++) work(am, ca, i, r); for (int i = 0; i < 5; i++) work(ao, cb, i, r);
  auto go = [&](Model *p, int c) { Results x; for (int i = 0; i < 5; i++) work(*p, c, i, x); }; std::thread t(go, &m, ca), u(go, &o, cb); t.join(); u.join(); sameModel(m, am); sameModel(o, ao); sym_reach("threads");
}
ENTRY(c36_init) { // building models and using them for the first time, at the same time
  int cb = sym_dim("other_config", 0, 1), turn = sym_dim("turn", 0, 3); sym_sched(turn == 3 ? -1 : turn ? -1 - turn : 0); bool ok[2] = {false, false}; auto go = [&](int k, int c) { Model m; build(m, c); Results r = m.forwardPropagation(input(c, k)); ok[k] = m.layers[3]->weights.dim() == dim3(2 + c, c ? 12 : 4, 1) && r.label_idx < 2u + c; }; std::thread t(go, 0, 0), u(go, 1, cb); t.join(); u.join(); sym_assert(ok[0] && ok[1], "each model has its own size"); sym_reach("init");
}
ENTRY(c36_parts) { // different parts of one matrix written by two threads at once
  int kind = sym_dim("kind", 0, 3), dx = sym_dim("dx", 2, 3), dy = sym_dim("dy", 1, 3); SimpleMatrix<double> A(dim3(dx, dy, 2), 9.0), v(dim3(1, dy, 2), sym_double("v")); sym_sched(kind == 3 ? -1 : 0); auto f = [&](int k) { if (kind == 0) A.subMatView(dim3(k, 0, 0), dim3(1, dy, 2)) = v; else if (kind == 1) A.subMatView(dim3(k, 0, 0), dim3(1, dy, 2)) += v; else if (kind == 2) for (int y = 0; y < dy; y++) A(k, y, 0) = A(k, y, 1) = v[0]; else for (auto &e : A.subMatView(dim3(0, 0, k), dim3(1, dy, 1))) e = v[0]; };
  std::thread t(f, 0), u(f, 1); t.join(); u.join(); for (int z = 0; z < 2; z++) for (int y = 0; y < dy; y++) for (int x = 0; x < dx; x++) sym_close(A(x, y, z), kind == 3 ? (x < 1 ? v[0] : 9.0) : x < 2 ? (kind == 1 ? 9.0 : 0.0) + v[0] : 9.0, "parts written by different threads do not interfere"); sym_reach("parts");
}
ENTRY(c36_matrices) { // matrices read by several threads at once, and different matrices written at once
  int kind = sym_dim("kind", 0, 5); SimpleMatrix<double> A = mat(dim3(3, 3, 1), 1), B = mat(dim3(3, 3, 1), 4), R[2]; A[4] = sym_double("a"); auto f = [&](int k) { const SimpleMatrix<double> &a = A, &b = B; if (kind == 0) R[k] = a + b; else if (kind == 1) R[k] = my_cnn::matrixMultiply(a, b); else if (kind == 2) R[k] = my_cnn::convolve(a, b.subMatView(dim3(0, 0, 0), dim3(2, 2, 1)), dim2(1, 1)); else if (kind == 3) R[k] = my_cnn::transpose(a); else if (kind == 4) { R[k] = a; R[k] *= 2.0; R[k].subMatView(dim3(0, 0, 0), dim3(2, 2, 1)) = a.subMatView(dim3(1, 1, 0), dim3(2, 2, 1)); } else { R[k] = SimpleMatrix<double>(dim3(2, 1, 1)); R[k][0] = my_cnn::sum(a); SimpleMatrix<double> q = my_cnn::rotate<2>(a); const SimpleMatrix<double> &c = q; R[k][1] = my_cnn::dot(c.subMatView(dim3(0, 0, 0), dim3(3, 1, 1)), b.subMatView(dim3(0, 0, 0), dim3(3, 1, 1))); } };
  std::thread t(f, 0), u(f, 1); t.join(); u.join(); SimpleMatrix<double> first = R[0]; sameMat(R[1], first, "both threads compute the same"); f(0); sameMat(R[0], first, "a thread computes what a single one computes"); sym_reach("matrices");
}
