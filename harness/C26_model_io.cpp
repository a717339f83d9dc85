//@ entry c26_roundtrip reach=conv,plain,softmax
//@ entry c26_labels reach=labels
//@ entry c26_again reach=again
//@ entry c26_overwrite reach=overwrite
//@ entry c26_long reach=long
//@ entry c26_unwritable reach=nofile,full
//@ bounds quick: models of 0..4 layers of every kind before the output layer, 1..3 labels of up to 2 arbitrary printable characters (spaces included); parameters any value within +-1000; the file may exist before; the disk may be full after any number of bytes; c26_long: 300 labels, 300 layers, or layers with 300 parameters
//@ bounds thorough: as quick
//@ assume labels contain no line break; a number is read back as some value within the printed precision of what was written
#include "ml.h"
static void same(const SimpleMatrix<double> &a, const SimpleMatrix<double> &b, const char *l) { sym_assert(a.dim() == b.dim(), l); for (size_t i = 0; i < a.size(); i++) { double d = a[i] - b[i]; sym_assert(d <= 1e-6 && d >= -1e-6, l); } }
ENTRY(c26_roundtrip) {
  int conv = sym_dim("conv", 0, 1), pool = sym_dim("pool", 0, 3), act = sym_dim("activation", 0, 5), full = sym_dim("full", 0, 2), sm = sym_dim("softmax", 0, 1); sym_assume((pool == 0) + (act == 0) + (full == 0) >= 1); Model m;
  if (conv) { Kernel &k = m.addKernel(dim3(1, 1, 1), 2); setParams(k.weights, "w"); setParams(k.biases, "b"); sym_reach("conv"); } else sym_reach("plain");
  if (act) m.addActivation((my_cnn::ModelActivationFunction)(act - 1));
  if (pool) m.addPooling(dim2(2, 1), dim2(pool, 1), pool == 1 ? my_cnn::MAX : pool == 2 ? my_cnn::MIN : my_cnn::AVG);
  int n = conv ? 2 : 1, cells = pool == 1 ? 2 : pool ? 1 : 3; for (int i = 0; i < full; i++) { ConnectedLayer &c = m.addConnectedLayer(2); c.checkSize(SimpleMatrix<double>(i ? dim3(2, 1, 1) : dim3(cells, 1, n), 0.0)); setParams(c.weights, "w"); setParams(c.biases, "b"); }
  m.setOutputLabels({"one", "2 x"}, sm ? my_cnn::SOFTMAX : my_cnn::UNSPECIFIED_OUTPUT); if (sm) sym_reach("softmax");
  const char *f = vf_path("model"); sym_assert(m.saveModel(f), "saving to a writable file succeeds"); Model q; sym_assert(q.loadModel(f), "a saved model can be loaded");
  sym_assert(q.layers.size() == m.layers.size(), "number of layers"); sym_assert(q.output_labels == m.output_labels, "labels survive");
  for (size_t i = 0; i < m.layers.size(); i++) { sym_assert(q.layers[i]->getType() == m.layers[i]->getType(), "kind and order of the layers"); same(m.layers[i]->weights, q.layers[i]->weights, "weights survive"); same(m.layers[i]->biases, q.layers[i]->biases, "biases survive"); sym_assert(q.layers[i]->checkSize(SimpleMatrix<double>(dim3(2, 1, 1), 0.0)) == m.layers[i]->checkSize(SimpleMatrix<double>(dim3(2, 1, 1), 0.0)), "accepted sizes survive"); }
  if (pool || act) for (size_t i = 0; i < m.layers.size(); i++) if (m.layers[i]->getType() == my_cnn::POOLING || m.layers[i]->getType() == my_cnn::ACTIVATION) { RD in(4, 2, 1); for (int k = 0; k < 8; k++) in.v[k] = ((k * 5) % 8) / 8.0 - 0.3; expectSame(q.layers[i]->propagateForward(toMatrix(in)), fromMatrix(m.layers[i]->propagateForward(toMatrix(in))), "the loaded layer computes what the saved one computes"); }
}
ENTRY(c26_labels) {
  int n = sym_dim("n", 1, 3); Model m; std::vector<std::string> L; for (int i = 0; i < n; i++) { std::string s; int len = i == 0 ? sym_dim("len", 0, 2) : 1; for (int k = 0; k < len; k++) s.push_back((char)sym_int("c", 32, 126)); L.push_back(s); } m.setOutputLabels(L); const char *f = vf_path("model"); sym_assert(m.saveModel(f), "saving succeeds"); Model q; sym_assert(q.loadModel(f), "a saved model can be loaded");
  sym_assert(q.output_labels.size() == L.size(), "number of labels"); for (int i = 0; i < n; i++) sym_assert(q.output_labels[i] == L[i], "labels survive in order"); SimpleMatrix<double> p(dim3(n, 1, 1), 0.5); sym_assert(q.layers.size() == 1 && q.layers[0]->checkSize(p) && !q.layers[0]->checkSize(SimpleMatrix<double>(dim3(n + 1, 1, 1), 0.5)), "the output layer has one output per label"); sym_reach("labels");
}
ENTRY(c26_again) { // a loaded model can be used, trained and saved like the original
  Model m; m.addKernel(dim3(1, 2, 1), 1); m.addActivation(my_cnn::LEAKY_RELU); m.addConnectedLayer(2); m.setOutputLabels({"a", "b"}); SimpleMatrix<double> in(dim3(2, 2, 1), 0.25); in[3] = -1; Results a = m.forwardPropagation(in); const char *f = vf_path("model"), *g = vf_path("model2"); sym_assert(m.saveModel(f), "saving succeeds"); Model q, r; sym_assert(q.loadModel(f), "loading succeeds");
  Results b = q.forwardPropagation(in); double d = a.confidence - b.confidence; sym_assert(d < 1e-4 && d > -1e-4 && a.label_idx == b.label_idx, "a loaded model predicts what the saved one predicts"); for (auto &l : q.layers) l->setBatchSize(1); b = q.forwardPropagation(in); q.backwardsPropagation(b, "b", 0); for (auto &l : q.layers) l->applyBatch(0.1); sym_assert(q.saveModel(g) && r.loadModel(g), "a trained model can be saved and loaded again"); for (size_t i = 0; i < q.layers.size(); i++) same(q.layers[i]->weights, r.layers[i]->weights, "weights survive again"); sym_reach("again");
}
ENTRY(c26_overwrite) { // saving replaces what the file contained before
  int first = sym_dim("first", 0, 2), n = sym_dim("n", 1, 3); const char *f = vf_path("model"); if (first == 0) { std::string junk(sym_dim("junk", 1, 2) * 150, 'x'); vf_put(f, junk.data(), junk.size()); } else { Model o; o.addPooling(dim2(3, 2), dim2(1, 1), my_cnn::MIN); if (first == 2) { o.addConnectedLayer(2); o.addActivation(my_cnn::RELU); } o.setOutputLabels({"old", "older", "oldest"}); sym_assert(o.saveModel(f), "saving succeeds"); }
  Model m, q; m.addActivation(my_cnn::TANGENT); std::vector<std::string> L; for (int i = 0; i < n; i++) L.push_back(std::string(1, 'p' + i)); m.setOutputLabels(L); sym_assert(m.saveModel(f), "saving succeeds"); sym_assert(q.loadModel(f), "a saved model can be loaded"); sym_assert(q.output_labels == L && q.layers.size() == 2 && q.layers[0]->getType() == my_cnn::ACTIVATION, "saving replaces an earlier file"); sym_reach("overwrite");
}
ENTRY(c26_unwritable) {
  int how = sym_dim("how", 0, 1); Model m; m.addActivation(my_cnn::RELU); m.addPooling(dim2(1, 1), dim2(1, 1), my_cnn::MAX); m.setOutputLabels({"a", "b"});
  if (how == 0) { sym_assert(!m.saveModel(vf_path("no_such_dir/model")), "saving to a file that cannot be created is reported"); sym_reach("nofile"); return; }
  const char *f = vf_path("model"); sym_assert(m.saveModel(f), "saving succeeds"); long full = vf_size(f); int room = sym_int("room", 0, 200); sym_assume(room < full); const char *g = vf_path("model2"); vf_budget(sym_fork(room)); bool ok = m.saveModel(g); vf_budget(-1); sym_assert(!ok, "a model that was not written completely is reported"); sym_reach("full");
}
ENTRY(c26_long) { // hundreds of labels, layers or parameters
  int k = sym_dim("case", 0, 2); Model m, q; if (k == 1) for (int i = 0; i < 300; i++) { if (i % 3) m.addActivation((my_cnn::ModelActivationFunction)(i % 5)); else m.addPooling(dim2(1 + i % 7, 2), dim2(1, 1), my_cnn::MAX); } if (k == 2) { Kernel &w = m.addKernel(dim3(3, 2, 5), 11); for (size_t i = 0; i < w.weights.size(); i++) w.weights[i] = i * 0.25 - 40; ConnectedLayer &c = m.addConnectedLayer(2); c.checkSize(SimpleMatrix<double>(dim3(15, 2, 10), 0.0)); for (size_t i = 0; i < c.weights.size(); i++) c.weights[i] = i * 0.5 - 70; }
  std::vector<std::string> L; for (int i = 0; i < (k ? 2 : 300); i++) L.push_back("label " + std::to_string(i)); m.setOutputLabels(L); const char *f = vf_path("model"); sym_assert(m.saveModel(f), "saving succeeds"); sym_assert(q.loadModel(f), "a saved model can be loaded"); sym_assert(q.output_labels == L, "labels survive"); sym_assert(q.layers.size() == m.layers.size(), "number of layers"); for (size_t i = 0; i < m.layers.size(); i++) { sym_assert(q.layers[i]->getType() == m.layers[i]->getType(), "kind and order of the layers"); same(m.layers[i]->weights, q.layers[i]->weights, "weights survive"); same(m.layers[i]->biases, q.layers[i]->biases, "biases survive"); } sym_reach("long");
}
