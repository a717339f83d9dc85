//@ entry c21_compose reach=conv,pool,full,act
//@ entry c21_argmax reach=label
//@ entry c21_wide reach=deep,label
//@ entry c21_types reach=types
//@ entry c21_exact fp=ieee reach=exact
//@ entry c21_reject reach=rejected
//@ entry c21_repeat reach=repeat
//@ bounds quick: models of up to four layers before the output layer (convolution, pooling, activation, fully connected), inputs up to 3x3x1, 2..3 labels; parameters and inputs symbolic; c21_wide (given parameters): 9x8x2 input, 3 filters of 3x2, average pool 2x3, 4 filters of 2x1, 5 outputs; 10 labels with the largest output at any position, 300 labels with it at six positions; c21_exact: IEEE doubles, 2..3 outputs of any finite value
//@ bounds thorough: inputs up to 4x3x1, 2..4 labels
//@ assume inputs and parameters are real numbers except in c21_exact; layer results and the confidence are stored with float precision
#include "ml.h"
ENTRY(c21_compose) { // the model applies its layers in order
  int conv = sym_dim("conv", 0, 1), act = sym_dim("activation", 0, 1), pool = sym_dim("pool", 0, 1), X = sym_dim("X", 2, sym_tier() ? 4 : 3);
  Model m; RD in = symRef<double>("in", X, 2, 1), v = in;
  if (conv) { Kernel &k = m.addKernel(dim3(2, 1, 1), 1); RD w = setParams(k.weights, "w"), b = setParams(k.biases, "b"); v = refConv(v, w, b, 1, 1, 1); }
  if (act) { m.addActivation(my_cnn::RELU); for (auto &e : v.v) e = e > 0 ? e : 0; }
  if (pool) { m.addPooling(dim2(1, 2), dim2(1, 1), my_cnn::AVG); RD o(v.X, v.Y - 1, 1); EACH(o, x, y, z) o.at(x, y, z) = (v.at(x, y, z) + v.at(x, y + 1, z)) / 2; v = o; }
  ConnectedLayer &c = m.addConnectedLayer(2); c.checkSize(toMatrix(v)); RD w = setParams(c.weights, "fw"), b = setParams(c.biases, "fb"); v = refFull(v, w, b);
  m.setOutputLabels({"a", "b"}, my_cnn::UNSPECIFIED_OUTPUT); Results r = m.forwardPropagation(toMatrix(in));
  sym_assert(r.layer_inputs.size() == m.layers.size() + 1, "one stored input per layer, and the output"); expectSame(r.layer_inputs.back(), v, "output of the model is the composition of its layers"); expectSame(r.layer_inputs.front(), in, "first stored input is the model's input");
  size_t best = v.v[1] > v.v[0] ? 1 : 0; if (v.v[0] != v.v[1]) sym_assert(r.label_idx == best, "the predicted label has the largest output");
  sym_reach("full"); if (conv) sym_reach("conv"); if (act) sym_reach("act"); if (pool) sym_reach("pool");
}
ENTRY(c21_argmax) { // the prediction is a label whose probability is largest, the confidence is that probability
  int n = sym_dim("n", 1, sym_tier() ? 4 : 3); Model m; std::vector<std::string> L; for (int i = 0; i < n; i++) L.push_back(std::string(1, 'a' + i)); m.setOutputLabels(L);
  RD in = symRef<double>("in", n, 1, 1); Results r = m.forwardPropagation(toMatrix(in)); sym_assert(r.label_idx < (size_t)n, "the prediction is one of the labels");
  for (int i = 0; i < n; i++) sym_assert(in.v[i] <= in.v[r.label_idx], "no other label has a larger score");
  auto &p = r.layer_inputs.back(); for (int i = 0; i < n; i++) sym_assert(r.confidence >= p[i], "the confidence is the largest probability"); sym_close(r.confidence, p[r.label_idx], "the confidence is the probability of the prediction"); sym_assert(r.confidence > 0 && r.confidence <= 1, "the confidence is a probability"); sym_reach("label");
}
ENTRY(c21_types) { // inputs of other element types are converted by value
  my_cnn::ModelDescription<unsigned char, std::string> m; m.setOutputLabels({"a", "b"}, my_cnn::UNSPECIFIED_OUTPUT); SimpleMatrix<unsigned char> in(dim3(2, 1, 1)); unsigned char p = sym_byte("p"), q = sym_byte("q"); in[0] = p; in[1] = q;
  auto r = m.forwardPropagation(in); sym_assert(r.layer_inputs.back()[0] == (float)p && r.layer_inputs.back()[1] == (float)q, "pixel values are kept"); sym_assert(r.label_idx == (q > p ? 1u : 0u), "largest output"); sym_reach("types");
}
ENTRY(c21_exact) { // the prediction is decided with the full precision of the outputs
  int n = sym_dim("n", 2, 3); Model m; std::vector<std::string> L; for (int i = 0; i < n; i++) L.push_back(std::string(1, 'a' + i)); m.setOutputLabels(L, my_cnn::UNSPECIFIED_OUTPUT); SimpleMatrix<double> in(dim3(n, 1, 1)); for (int i = 0; i < n; i++) in[i] = sym_double_in("v", -1e30, 1e30); std::vector<double> v(in.begin(), in.end());
  Results r = m.forwardPropagation(in); sym_assert(r.label_idx < (size_t)n, "the prediction is one of the labels"); for (int i = 0; i < n; i++) sym_assert(v[i] <= v[r.label_idx], "no other label has a larger output"); sym_assert(r.confidence == (float)v[r.label_idx], "the confidence is the output of the prediction"); sym_reach("exact");
}
ENTRY(c21_reject) { // an input that does not fit some layer is reported, never processed
  int bad = sym_dim("bad", 0, 2); Model m; m.addKernel(dim3(2, 2, 1), 1); m.addPooling(dim2(2, 2), dim2(1, 1), my_cnn::MAX); ConnectedLayer &c = m.addConnectedLayer(2); m.setOutputLabels({"a", "b"}); 
  SimpleMatrix<double> good(dim3(3, 3, 1), 0.5); m.forwardPropagation(good); sym_assert(c.weights.dim() == dim3(2, 1, 1), "layer size");
  SimpleMatrix<double> in(bad == 0 ? dim3(3, 1, 1) : bad == 1 ? dim3(2, 3, 1) : dim3(4, 4, 1), 0.5); sym_assert(rejects([&] { m.forwardPropagation(in); }), "an input that does not fit is rejected"); sym_reach("rejected");
}
ENTRY(c21_repeat) { // inference does not change the model
  Model m; Kernel &k = m.addKernel(dim3(1, 1, 1), 1); m.addPooling(dim2(2, 1), dim2(1, 1), my_cnn::MAX); m.addActivation(my_cnn::LEAKY_RELU); ConnectedLayer &c = m.addConnectedLayer(2); m.setOutputLabels({"a", "b"}, my_cnn::UNSPECIFIED_OUTPUT); c.checkSize(SimpleMatrix<double>(dim3(1, 1, 1), 0.0));
  setParams(k.weights, "w"); setParams(k.biases, "b"); setParams(c.weights, "fw"); setParams(c.biases, "fb"); RD a = symRef<double>("a", 2, 1, 1), b = symRef<double>("b", 2, 1, 1);
  RD first = fromMatrix(m.forwardPropagation(toMatrix(a)).layer_inputs.back()); m.forwardPropagation(toMatrix(b)); Results r = m.forwardPropagation(toMatrix(a)); expectSame(r.layer_inputs.back(), first, "the same input has the same output, whatever was classified in between"); sym_reach("repeat");
}
static RD given(SimpleMatrix<double> &m, int s) { RD r(m.dim().x, m.dim().y, m.dim().z); int i = 0; EACH(r, x, y, z) m(x, y, z) = r.at(x, y, z) = ((i++ * s) % 7 - 3) / 4.0; return r; }
ENTRY(c21_wide) {
  if (sym_fork(sym_bool("deep"))) {
    Model m; RD in = symRef<double>("in", 9, 8, 2), v = in; Kernel &k = m.addKernel(dim3(3, 2, 2), 3); RD w = given(k.weights, 3), b = given(k.biases, 2); v = refConv(v, w, b, 3, 2, 1);
    m.addPooling(dim2(2, 3), dim2(3, 2), my_cnn::AVG); RD o((v.X - 2) / 3 + 1, (v.Y - 3) / 2 + 1, 3); EACH(o, x, y, z) { double s = 0; for (int p = 0; p < 2; p++) for (int q = 0; q < 3; q++) s += v.at(x * 3 + p, y * 2 + q, z); o.at(x, y, z) = s / 6; } v = o;
    Kernel &l = m.addKernel(dim3(2, 1, 3), 4); RD w2 = given(l.weights, 5), b2 = given(l.biases, 1); v = refConv(v, w2, b2, 4, 3, 1); m.addActivation(my_cnn::LINEAR);
    ConnectedLayer &c = m.addConnectedLayer(5); c.checkSize(toMatrix(v)); for (auto &e : c.weights) e = 0; for (auto &e : c.biases) e = 0; int N = v.v.size(); for (int i = 0; i < 5; i++) c.biases[i] = i; for (int i = 0; i < 5; i++) for (int j = 0; j < N; j++) c.weights(i, j) = i == 3 ? 1 + j % 7 : 0; double t = 3; for (int j = 0; j < N; j++) t += (1 + j % 7) * v.v[j];
    m.setOutputLabels({"a", "b", "c", "d", "e"}, my_cnn::UNSPECIFIED_OUTPUT); Results r = m.forwardPropagation(toMatrix(in)); for (int q = 0; q < 5; q++) sym_close(r.layer_inputs.back()[q], q == 3 ? t : q, "output of the model is the composition of its layers"); sym_reach("deep"); return;
  }
  int top = sym_dim("top", 0, 15), n = top < 10 ? 10 : 300; static const int far[] = {0, 127, 128, 255, 256, 299}; if (top > 9) top = far[top - 10]; Model m; std::vector<std::string> L; for (int i = 0; i < n; i++) L.push_back(std::to_string(i)); m.setOutputLabels(L, my_cnn::UNSPECIFIED_OUTPUT); SimpleMatrix<double> in(dim3(n, 1, 1)); for (int i = 0; i < n; i++) in[i] = ((i * 7) % 10) / 16.0 - 0.75; double v = sym_double_in("v", 0.25, 100); in[top] = v;
  Results r = m.forwardPropagation(in); sym_assert(r.label_idx == (size_t)top, "the prediction has the largest output"); sym_close(r.confidence, v, "the confidence is the output of the prediction"); sym_reach("label");
}
