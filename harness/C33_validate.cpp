//@ entry c33_count reach=validated
//@ entry c33_threads reach=threads
//@ entry c33_samples reach=samples
//@ entry c33_labels reach=equal,other
//@ entry c33_shown reach=shown
//@ entry c33_printed reach=known,unknown
//@ entry c33_wide reach=wide
//@ bounds quick: 1..2 images of one pixel, every pixel value and correct or wrong labels, 1..2 threads; 1..3 images on 2 threads with every interleaving at mutex and atomic operations; c33_labels: labels of one to three digits, some a prefix or suffix of another; five samples drawn with any random numbers from 1..2 images; c33_shown: five samples drawn with any random numbers from 1..2 images of 1x2 pixels; c33_printed: every confidence and loss within +-1000, label indices to 9, true label known or not; c33_wide: 11 images of 2x2 pixels on 1..6 threads, 300 on 3, run-to-block schedule
//@ bounds thorough: up to 3 images, 3 threads
#include "pr.h"
struct Test : Files { Test(int n, bool sym, int side = 1) : Files(n, side, side) { for (int i = 0; i < n; i++) add(std::vector<int>(side * side, sym ? (int)sym_byte("px") : (i * 91 + 40) % 256), sym ? sym_dim("label", 0, 1) : i & 1); put(vdir() + "/MNIST Test Images.ubyte-img", vdir() + "/MNIST Test Labels.ubyte-label"); }
  int correct() const { int c = 0; for (size_t i = 0; i < px.size(); i++) c += (px[i][0] >= 128 ? 0 : 1) == l[i]; return c; } };
typedef my_cnn::ModelDescription<float, std::string> FModel;
// the first class wins exactly for the bright pixels
static void build(FModel &m, int side = 1, std::string first = "0", std::string second = "1") { m.addPooling({side, side}, {1, 1}, my_cnn::MAX); my_cnn::ConnectedLayer &c = m.addConnectedLayer(2); m.setOutputLabels({first, second}, my_cnn::SOFTMAX); SimpleMatrix<double> z(dim3(1, 1, 1), 0.0); c.checkSize(z); c.weights(0, 0, 0) = 1; c.weights(1, 0, 0) = -1; c.biases(0, 0, 0) = c.biases(1, 0, 0) = 0; }
static void run(FModel &m, int threads) { FModel::Hyperparameters h; h.num_threads = threads; h.batch_size = 1; vf_capture(1); validate(m, h); vf_capture(0); }
static double accuracy() { std::string t = captured(); size_t p = findAfter(t, "accuracy was "); sym_assert(p != std::string::npos, "the accuracy is printed"); return std::stod(t.substr(p)); }
ENTRY(c33_count) {
  int n = sym_dim("n", 1, 2 + sym_tier()), th = sym_dim("threads", 1, 2); Test t(n, true); FModel m; build(m); sym_sched(0); run(m, th); sym_assert(std::fabs(accuracy() - 100.0 * t.correct() / n) < 0.01, "the accuracy is the share of images whose predicted label is their own"); sym_reach("validated");
}
ENTRY(c33_threads) { // no thread order, no number of threads changes the result, and nothing is shared without protection
  int n = sym_dim("n", 1, 3), th = sym_dim("threads", 2, 2 + sym_tier()); Test t(n, false); FModel m; build(m); run(m, th); sym_assert(std::fabs(accuracy() - 100.0 * t.correct() / n) < 0.01, "every image is counted once, whatever the thread order"); sym_reach("threads");
}
ENTRY(c33_samples) { // the samples shown are images of the set for any random draw
  int n = sym_dim("n", 1, 2); Test t(n, false); FModel m; build(m); sym_rand(1); sym_sched(0); run(m, 1); sym_assert(std::fabs(accuracy() - 100.0 * t.correct() / n) < 0.01, "the accuracy does not depend on random numbers"); sym_reach("samples");
}
// the line with the first `w` from p on holds exactly this number after it
static double shown(const std::string &t, const char *w, size_t p = 0) { size_t q = findAfter(t, w, p); sym_assert(q != std::string::npos, "a sample shows its prediction"); if (q == std::string::npos) return 0; std::istringstream is(t.substr(q)); double v = 0; is >> v; sym_assert(!is.fail(), "a prediction is shown by numbers"); return v; }
ENTRY(c33_shown) { // each sample is shown with its own pixels, label, prediction and confidence
  int n = sym_dim("n", 1, 2 + sym_tier()); Files t(n, 1, 2); for (int i = 0; i < n; i++) t.add({i * 100, 40}, (i + 1) % 2); t.put(vdir() + "/MNIST Test Images.ubyte-img", vdir() + "/MNIST Test Labels.ubyte-label");
  FModel m; my_cnn::ConnectedLayer &c = m.addConnectedLayer(2); m.setOutputLabels({"0", "1"}, my_cnn::SOFTMAX); SimpleMatrix<double> z(dim3(1, 2, 1), 0.0); c.checkSize(z); for (int k = 0; k < 2; k++) c.weights(0, k, 0) = k ? 0 : 1, c.weights(1, k, 0) = 0; c.biases(0, 0, 0) = 0.2; c.biases(1, 0, 0) = 0;
  std::vector<std::string> image; { my_cnn::MNISTReader r(vdir() + "/MNIST Test Images.ubyte-img", vdir() + "/MNIST Test Labels.ubyte-label"); for (int i = 0; i < n; i++) { auto d = r.getImage(i); vf_capture(1); my_cnn::printImage(d.data); vf_capture(0); image.push_back(captured()); } }
  sym_rand(1); sym_sched(0); FModel::Hyperparameters h; h.num_threads = 1; h.batch_size = 1; vf_capture(1); validate(m, h); vf_capture(0); std::string s = captured(); size_t p = 0; int k = 0;
  while ((p = findAfter(s, "This image is a ", p)) != std::string::npos) {
    k++; size_t end = findAfter(s, "This image is a ", p); int predicted = s[p] - '0', label = (int)shown(s, "actual label ", p), index = (int)shown(s, "Label Index:", p); double conf = shown(s, "Confidence:", p); bool found = false;
    for (int i = 0; i < n; i++) { size_t e = findAfter(s, image[i], p); if (e == std::string::npos || e > end || label != (i + 1) % 2) continue; double v = (i * 100 - 128) / 255.0 + 0.2, q = 1 / (1 + std::exp(-v)), d = conf - (q > 0.5 ? q : 1 - q); found = true; sym_assert(predicted == (v > 0 ? 0 : 1) && index == predicted, "a sample is shown with the prediction for it"); sym_assert(d < 1e-3 && d > -1e-3, "a sample is shown with the confidence of its prediction"); }
    sym_assert(found, "a sample is shown with its own pixels and label");
  }
  sym_assert(k > 0, "samples are shown"); sym_reach("shown");
}
ENTRY(c33_printed) {
  my_cnn::ModelResults<std::string> r; bool known = sym_dim("known", 0, 1); int a = sym_dim("index", 0, 9), b = sym_dim("true_index", 0, 9); r.label_idx = a; r.true_label_idx = b; float c = sym_float("confidence"), l = sym_float("loss"); sym_assume(c > -1000 && c < 1000 && l > -1000 && l < 1000); r.confidence = c; r.loss = l; if (known) r.true_label = "cat";
  std::ostringstream os; os << r; std::string s = os.str(); sym_assert(shown(s, "Label Index:") == a, "the index of the prediction is shown"); sym_close(shown(s, "Confidence:"), c, "the confidence is shown");
  if (known) { sym_close(shown(s, "Loss:"), l, "the loss is shown"); sym_assert(shown(s, "True index:") == b, "the index of the true label is shown"); size_t p = findAfter(s, "True value:"), q = findAfter(s, "cat"); sym_assert(p != std::string::npos && q != std::string::npos && p < q && s.find('\n', p) >= q, "the true label is shown"); }
  else sym_assert(findAfter(s, "cat") == std::string::npos && findAfter(s, "Loss:") == std::string::npos && findAfter(s, "True") == std::string::npos, "nothing is shown about an unknown label");
  sym_reach(known ? "known" : "unknown");
}
ENTRY(c33_labels) { // labels of several digits, some the beginning or the end of another
  static const char *pairs[][2] = {{"1", "12"}, {"12", "1"}, {"25", "255"}, {"0", "10"}, {"2", "12"}}; static const int labels[] = {1, 12, 2, 25, 255, 0, 10}; int k = sym_dim("pair", 0, 4), l = labels[sym_dim("label", 0, 6)], bright = sym_dim("bright", 0, 1); Files f(1, 1, 1); f.add({bright ? 200 : 20}, l); f.put(vdir() + "/MNIST Test Images.ubyte-img", vdir() + "/MNIST Test Labels.ubyte-label"); FModel m; build(m, 1, pairs[k][0], pairs[k][1]); sym_sched(0); run(m, 1);
  bool ok = pairs[k][bright ? 0 : 1] == std::to_string(l); sym_assert(std::fabs(accuracy() - (ok ? 100 : 0)) < 0.01, "a prediction is correct if it is the image's label"); sym_reach(ok ? "equal" : "other");
}
ENTRY(c33_wide) {
  int th = sym_dim("threads", 1, 7), turn = sym_dim("turn", 0, 2), n = th < 7 ? 11 : 300; if (n > 11) th = 3; Test t(n, false, 2); FModel m; build(m, 2); sym_sched(turn ? -1 - turn : 0); run(m, th); sym_assert(std::fabs(accuracy() - 100.0 * t.correct() / n) < 0.01, "every image is counted once, on any number of threads"); sym_reach("wide");
}
