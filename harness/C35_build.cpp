//@ entry c35_order reach=built
//@ entry c35_kernel reach=kernel
//@ entry c35_pooling reach=pooling
//@ entry c35_full reach=full
//@ entry c35_labels reach=softmax,bare,again
//@ entry c35_loaded reach=loaded
//@ entry c35_long reach=long
//@ bounds quick: every sequence of up to 4 layers; kernels up to 3x3x3 with up to 4 filters; pools and strides 1..4; 1..4 outputs; 1..4 labels; 300 layers
//@ bounds thorough: every sequence of up to 5 layers
#include "ml.h"
static my_cnn::ModelFlowMode modes[] = {my_cnn::KERNEL, my_cnn::POOLING, my_cnn::FULLY_CONNECTED, my_cnn::ACTIVATION};
static const char *names[] = {"Kernel_", "Pooling_", "FullyConnected_", "Activation_"};
static my_cnn::ModelLayer *add(Model &m, int kind, int i) { if (kind == 0) return &m.addKernel(dim3(1 + i % 2, 1, 1), 1 + i % 3); if (kind == 1) return &m.addPooling(dim2(1, 2), dim2(1, 1), my_cnn::AVG); if (kind == 2) return &m.addConnectedLayer(1 + i % 4); return &m.addActivation(my_cnn::RELU); }
ENTRY(c35_order) { // layers stand in the order they were added, each the one that was returned, numbered within its kind
  int n = sym_dim("n", 0, 4 + sym_tier()); Model m; std::vector<my_cnn::ModelLayer *> L; std::vector<int> kinds; int count[4] = {0, 0, 0, 0};
  for (int i = 0; i < n; i++) { int k = sym_dim("kind", 0, 3); L.push_back(add(m, k, i)); kinds.push_back(k); sym_assert(m.layers.size() == (size_t)i + 1 && m.layers.back().get() == L.back(), "adding a layer appends exactly that layer"); }
  m.setOutputLabels({"a", "b"}); sym_assert(m.layers.size() == (size_t)n + 1 && m.layers.back()->getType() == my_cnn::OUTPUT && m.layers.back()->name == "SoftmaxOutput", "the output layer comes last");
  for (int i = 0; i < n; i++) { sym_assert(m.layers[i].get() == L[i] && L[i]->getType() == modes[kinds[i]], "layers keep their order and kind"); sym_assert(L[i]->name == names[kinds[i]] + std::to_string(++count[kinds[i]]), "a layer is named by its kind and its number within the kind"); }
  sym_reach("built");
}
ENTRY(c35_kernel) {
  int X = sym_dim("X", 1, 3), Y = sym_dim("Y", 1, 3), Z = sym_dim("Z", 1, 3), n = sym_dim("filters", 1, 4); Model m; Kernel &k = m.addKernel(dim3(X, Y, Z), n); sym_assert(k.num_filters == (unsigned)n && k.stride == 1 && k.weights.dim() == dim3(X, Y, Z * n) && k.biases.dim() == dim3(n, 1, 1), "a new convolution has the filters asked for, applied at every position");
  SimpleMatrix<double> in(dim3(X + 1, Y + 2, Z), 0.5); sym_assert(k.checkSize(in) && k.outputSize(in) == dim3(2, 3, n), "size of the output"); setParams(k.weights, "w"); sym_assert(!k.checkSize(SimpleMatrix<double>(dim3(X + 1, Y + 2, Z + 1), 0.5)) && !k.checkSize(SimpleMatrix<double>(dim3(X, Y - 1, Z), 0.5)), "other inputs are not accepted");
  m.setOutputLabels(std::vector<std::string>(6 * n, "l"), my_cnn::UNSPECIFIED_OUTPUT); double w = k.weights[0], b = sym_double("b"); for (auto &e : k.weights) e = 0; for (auto &e : k.biases) e = b; k.weights[0] = w; Results r = m.forwardPropagation(in); sym_close(r.layer_inputs.back()(0, 0, 0), 0.5 * w + b, "changing the returned layer changes the model"); sym_reach("kernel");
}
ENTRY(c35_pooling) {
  int P = sym_dim("P", 1, 4), Q = sym_dim("Q", 1, 4), s = sym_dim("s", 1, 4), t = sym_dim("t", 1, 4), kind = sym_dim("kind", 0, 2); Model m; Pooling &p = m.addPooling(dim2(P, Q), dim2(s, t), kind == 0 ? my_cnn::MAX : kind == 1 ? my_cnn::MIN : my_cnn::AVG); sym_assert(p.outputSize(dim3(9, 10, 2)) == dim3((9 - P) / s + 1, (10 - Q) / t + 1, 2), "a new pooling layer has the size and stride asked for");
  SimpleMatrix<double> in(dim3(P, Q, 1), 1.0), out; in[0] = 3; if (P * Q > 1) in[P * Q - 1] = -2; out = p.propagateForward(SimpleMatrix<double>(in)); double s2 = 0; for (double d : in) s2 += d; sym_close(out[0], kind == 0 ? 3.0 : kind == 1 ? (P * Q > 1 ? -2.0 : 3.0) : s2 / (P * Q), "a new pooling layer pools as asked for"); sym_reach("pooling");
}
ENTRY(c35_full) { // outputs as asked for, inputs as first used; an activation of the kind asked for
  int n = sym_dim("n", 1, 4), X = sym_dim("X", 1, 3), k = sym_dim("activation", 0, 4); Model m; ConnectedLayer &c = m.addConnectedLayer(n); Activation &a = m.addActivation((my_cnn::ModelActivationFunction)k); m.setOutputLabels(std::vector<std::string>(n, "l"), my_cnn::UNSPECIFIED_OUTPUT); Results r = m.forwardPropagation(SimpleMatrix<double>(dim3(X, 2, 1), 0.5)); sym_assert(c.weights.dim() == dim3(n, 2 * X, 1) && c.biases.dim() == dim3(n, 1, 1), "a new layer has the outputs asked for");
  double v = sym_double_in("v", -2, 2); SimpleMatrix<double> in(dim3(1, 1, 1), v), o = a.propagateForward(SimpleMatrix<double>(in)); Activation want((my_cnn::ModelActivationFunction)k); sym_close(o[0], want.propagateForward(SimpleMatrix<double>(in))[0], "a new activation layer is of the kind asked for"); double e = k == 0 ? (v > 0 ? v : 0) : k == 2 ? v : k == 4 ? (v > 0 ? v : o[0]) : o[0]; sym_close(o[0], e, "a new activation layer is of the kind asked for"); sym_reach("full");
}
ENTRY(c35_labels) {
  int n = sym_dim("n", 1, 4), how = sym_dim("how", 0, 2); Model m; m.addConnectedLayer(n); std::vector<std::string> L; for (int i = 0; i < n; i++) L.push_back(std::string(1 + i % 2, 'd' - i)); if (how == 2) m.setOutputLabels(L); else m.setOutputLabels(L, how ? my_cnn::SOFTMAX : my_cnn::UNSPECIFIED_OUTPUT); sym_assert(m.output_labels == L, "labels are kept in order");
  sym_assert(m.layers.size() == (how ? 2u : 1u), "a softmax layer follows unless none is asked for"); if (how) { sym_assert(m.layers[1]->checkSize(SimpleMatrix<double>(dim3(n, 1, 1), 0.5)) && !m.layers[1]->checkSize(SimpleMatrix<double>(dim3(n + 1, 1, 1), 0.5)), "one output per label"); sym_reach(how == 2 ? "again" : "softmax"); } else { m.setOutputLabels({"other"}, my_cnn::UNSPECIFIED_OUTPUT); sym_assert(m.output_labels == std::vector<std::string>{"other"} && m.layers.size() == 1, "new labels replace earlier ones"); m.setOutputLabels(L, my_cnn::UNSPECIFIED_OUTPUT); sym_reach("bare"); }
  Results r = m.forwardPropagation(SimpleMatrix<double>(dim3(2, 1, 1), 0.5)); int t = sym_dim("true", 0, n - 1); m.assignLoss(r, L[t]); sym_assert(r.true_label_idx == (size_t)t && r.true_label == L[t], "a label is found at its place"); sym_assert(rejects([&] { m.assignLoss(r, "none"); }), "an unknown label is rejected");
}
ENTRY(c35_loaded) { // a loaded model is named and numbered like a built one, and more layers can be added to either
  int a = sym_dim("first", 0, 3), b = sym_dim("second", 0, 3); Model m, q; add(m, a, 0); add(m, b, 1); m.setOutputLabels({"x", "y"}); const char *f = vf_path("model"); sym_assert(m.saveModel(f) && q.loadModel(f), "a saved model can be loaded"); sym_assert(q.layers.size() == 3, "number of layers"); for (int i = 0; i < 3; i++) sym_assert(q.layers[i]->name == m.layers[i]->name, "a loaded layer has the name of the saved one");
  my_cnn::ModelLayer *l = add(q, a, 0); sym_assert(q.layers.size() == 4 && q.layers[3].get() == l && l->name == names[a] + std::to_string(a == b ? 3 : 2), "a layer is named by its kind and its number within the kind"); sym_reach("loaded");
}
ENTRY(c35_long) { // hundreds of layers and labels
  Model m; int n = 1200, count[4] = {0, 0, 0, 0}; std::vector<my_cnn::ModelLayer *> L; for (int i = 0; i < n; i++) L.push_back(add(m, i < 300 ? 3 : i % 4, i)); for (int i = 0; i < n; i++) { int k = i < 300 ? 3 : i % 4; sym_assert(m.layers[i].get() == L[i] && L[i]->getType() == modes[k] && L[i]->name == names[k] + std::to_string(++count[k]), "a layer is named by its kind and its number within the kind"); }
  std::vector<std::string> S; for (int i = 0; i < 300; i++) S.push_back("label " + std::to_string(i)); m.setOutputLabels(S); sym_assert(m.output_labels == S && m.layers.back()->checkSize(SimpleMatrix<double>(dim3(300, 1, 1), 0.0)), "labels are kept in order"); Kernel &k = m.addKernel(dim3(1, 1, 1), 300); ConnectedLayer &c = m.addConnectedLayer(300); sym_assert(k.num_filters == 300 && c.biases.dim() == dim3(300, 1, 1), "a new layer has the size asked for"); sym_reach("long");
}
