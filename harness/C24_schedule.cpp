//@ entry c24_weights reach=full
//@ entry c24_layers reach=conv
//@ entry c24_deep reach=deep
//@ entry c24_wide reach=wide
//@ entry c24_first reach=first
//@ bounds quick: 1..3 data points, batch size 1..3, 1..2 threads, every interleaving at mutex and atomic operations, data races anywhere; inputs and parameters symbolic for the fully connected model, fixed for the convolutional model; c24_deep: two convolution layers, every activation, maximum, minimum and mean pooling, two fully connected layers, two threads with one point each; c24_wide: 9 points in batches of 4 or 7 and 275 in batches of 270, 1..4 threads, run-to-block and round-robin schedules with turns of 1 to 3 steps
//@ bounds thorough: 1..4 data points, 1..3 threads
//@ assume equality of the resulting parameters is up to rounding (sums are formed in another order)
#include "ml.h"
struct Source : my_cnn::DataGenerator<double> {
  std::vector<RD> d; std::vector<int> l; size_t pos = 0;
  my_cnn::LabeledInput<double> getNextDataPoint() override { my_cnn::LabeledInput<double> p; p.data = toMatrix(d[pos]); p.label = l[pos] ? "b" : "a"; pos++; return p; }
  size_t size() override { return d.size(); }
  bool hasAvailableData() override { return pos < d.size(); }
  void reset() override { pos = 0; }
};
// what the epoch does, one data point after another on one thread, through the layer interfaces
template <class M> static void reference(M &m, Source &s, int B, double lr) {
  for (size_t i = 0; i < s.d.size(); i += B) { for (size_t k = i; k < s.d.size() && k < i + B; k++) { Results r = m.forwardPropagation(toMatrix(s.d[k]), k - i); m.backwardsPropagation(r, s.l[k] ? "b" : "a", k - i); } for (auto &l : m.layers) l->applyBatch(lr); }
}
static Model::Hyperparameters hyper(int B, int th) { Model::Hyperparameters h; h.learning_rate = 0.5; h.batch_size = B; h.num_threads = th; h.num_epochs = 1; return h; }
ENTRY(c24_weights) {
  int T = sym_tier(); int n = sym_dim("n", 1, T ? 3 : 2), B = sym_dim("batch", 1, 2), th = sym_dim("threads", 1, T ? 3 : 2);
  Model m, q; ConnectedLayer &c = m.addConnectedLayer(2), &e = q.addConnectedLayer(2); m.setOutputLabels({"a", "b"}); q.setOutputLabels({"a", "b"}); SimpleMatrix<double> z(dim3(1, 1, 1), 0.0); c.checkSize(z); e.checkSize(z); setParams(c.weights, "w"); setParams(c.biases, "b"); e.weights = c.weights; e.biases = c.biases;
  Source s; for (int i = 0; i < n; i++) { s.d.push_back(symRef<double>("in", 1, 1, 1)); s.l.push_back(i & 1); } for (auto &l : q.layers) l->setBatchSize(B); reference(q, s, B, 0.5); m.train(s, hyper(B, th));
  expectSame(c.weights, fromMatrix(e.weights), "weights after an epoch do not depend on the number of threads or their interleaving"); expectSame(c.biases, fromMatrix(e.biases), "biases after an epoch do not depend on the number of threads or their interleaving"); sym_reach("full");
}
static void build(Model &m) { m.addKernel(dim3(2, 2, 1), 1); m.addPooling(dim2(1, 2), dim2(1, 1), my_cnn::MAX); m.addActivation(my_cnn::TANGENT); m.addConnectedLayer(2); m.setOutputLabels({"a", "b"}); }
static void point(Source &s, int i) { RD r(2, 3, 1); for (int k = 0; k < 6; k++) r.v[k] = ((k * 7 + i * 5) % 11) / 11.0; s.d.push_back(r); s.l.push_back(i & 1); }
ENTRY(c24_layers) {
  int T = sym_tier(); int n = sym_dim("n", 1, T ? 4 : 3), B = sym_dim("batch", 1, 3), th = sym_dim("threads", 1, T ? 3 : 2); sym_assume((n + B - 1) / B * th <= 12); Model m, q; build(m); build(q); SimpleMatrix<double> z(dim3(1, 1, 1), 0.0); m.layers[3]->checkSize(z); q.layers[3]->checkSize(z);
  for (int i = 0; i < 4; i += 3) { q.layers[i]->weights = m.layers[i]->weights; q.layers[i]->biases = m.layers[i]->biases; } Source s; for (int i = 0; i < n; i++) point(s, i);
  for (auto &l : q.layers) l->setBatchSize(B); reference(q, s, B, 0.5); m.train(s, hyper(B, th));
  for (int i = 0; i < 4; i += 3) { expectSame(m.layers[i]->weights, fromMatrix(q.layers[i]->weights), "weights of every layer"); expectSame(m.layers[i]->biases, fromMatrix(q.layers[i]->biases), "biases of every layer"); } sym_reach("conv");
}
ENTRY(c24_deep) { // every kind of layer behind another one that needs its gradient
  int kind = sym_dim("kind", 0, 4); auto make = [&](Model &m) { m.addKernel(dim3(1, 2, 1), 1); m.addActivation((my_cnn::ModelActivationFunction)kind); m.addKernel(dim3(1, 2, 1), 2); m.addPooling(dim2(2, 1), dim2(1, 1), kind % 3 == 0 ? my_cnn::MAX : kind % 3 == 1 ? my_cnn::MIN : my_cnn::AVG); m.addConnectedLayer(2); m.addConnectedLayer(2); m.setOutputLabels({"a", "b"}); m.layers[4]->checkSize(SimpleMatrix<double>(dim3(2, 1, 1), 0.0)); m.layers[5]->checkSize(SimpleMatrix<double>(dim3(2, 1, 1), 0.0)); };
  Model m, q; make(m); make(q); for (int i : {0, 2, 4, 5}) { q.layers[i]->weights = m.layers[i]->weights; q.layers[i]->biases = m.layers[i]->biases; } Source s; for (int i = 0; i < 2; i++) { RD r(2, 3, 1); for (int k = 0; k < 6; k++) r.v[k] = ((k * 7 + i * 5) % 11) / 11.0; s.d.push_back(r); s.l.push_back(i); }
  for (auto &l : q.layers) l->setBatchSize(2); reference(q, s, 2, 0.5); m.train(s, hyper(2, 2)); for (int i : {0, 2, 4, 5}) { expectSame(m.layers[i]->weights, fromMatrix(q.layers[i]->weights), "weights of every layer"); expectSame(m.layers[i]->biases, fromMatrix(q.layers[i]->biases), "biases of every layer"); } sym_reach("deep");
}
ENTRY(c24_first) { // the very first epoch, where a fully connected layer still has to learn its size
  int th = sym_dim("threads", 2, 2 + sym_tier()); Model m; build(m); Source s; for (int i = 0; i < 2; i++) point(s, i); m.train(s, hyper(2, th)); sym_assert(m.layers[3]->weights.dim() == dim3(2, 1, 1), "the layer is initialised once"); sym_reach("first");
}
ENTRY(c24_wide) {
  int k = sym_dim("batch", 0, 2), n = k < 2 ? 9 : 275, B = k == 0 ? 4 : k == 1 ? 7 : 270, th = sym_dim("threads", 1, 4), turn = sym_dim("turn", 0, 3); sym_sched(turn ? -1 - turn : 0); Model m, q; ConnectedLayer &c = m.addConnectedLayer(2), &e = q.addConnectedLayer(2); m.setOutputLabels({"a", "b"}); q.setOutputLabels({"a", "b"}); SimpleMatrix<double> z(dim3(2, 1, 1), 0.0); c.checkSize(z); e.checkSize(z); e.weights = c.weights; e.biases = c.biases;
  Source s; for (int i = 0; i < n; i++) { RD r(2, 1, 1); r.v[0] = (i * 5 % 9) / 9.0; r.v[1] = (i * 7 % 9) / 9.0 - 0.5; s.d.push_back(r); s.l.push_back((i / 2) & 1); } for (auto &l : q.layers) l->setBatchSize(B); reference(q, s, B, 0.5); m.train(s, hyper(B, th));
  expectSame(c.weights, fromMatrix(e.weights), "weights after an epoch do not depend on the number of threads"); expectSame(c.biases, fromMatrix(e.biases), "biases after an epoch do not depend on the number of threads"); sym_reach("wide");
}
