//@ entry c23_epoch reach=one,several,partial,more_threads,none
//@ entry c23_wide reach=one,several,partial,more_threads
//@ entry c23_train reach=train
//@ entry c23_long reach=one,several,partial,more_threads
//@ entry c23_printed reach=printed
//@ bounds quick: 0..4 data points, batch size 1..3, 1..3 threads (at most 2 batches with 2 threads, 1 batch with 3), every interleaving at mutex and atomic operations; right and wrong predictions; training: 1..2 epochs of 1..2 points; c23_wide: 20 points with batches of 7 or 32, 11 with 4, 9 with 3, 1..5 threads, run-to-block and round-robin schedules with turns of 1 to 3 steps; c23_long: 300 points with batches of 290, 300 or 7, 200 with 400, 1, 3 or 8 threads, run-to-block and round-robin with turns of 1 or 2 steps; c23_printed: accuracy printed for 1..4 and 300 points
//@ bounds thorough: 0..5 data points, batch size 1..4, 1..4 threads (batches times extra threads at most 4)
//@ assume at least one thread and a batch size of at least one; the data source is used through its interface only
#include "ml.h"
struct Source : my_cnn::DataGenerator<double> {
  int n, pos = 0, resets = 0, beyond = 0; std::vector<int> taken, right; bool locked = false;
  Source(int n) : n(n), taken(n, 0), right(n, 0) {}
  my_cnn::LabeledInput<double> getNextDataPoint() override {
    if (pos >= n) { beyond++; pos = 0; }
    taken[pos]++; my_cnn::LabeledInput<double> p; p.data = SimpleMatrix<double>(dim3(2, 1, 1)); p.data[0] = 0; p.data[1] = 1; p.label = right[pos] ? "b" : "a"; pos++; return p;
  }
  size_t size() override { return n; }
  bool hasAvailableData() override { return pos < n; }
  void reset() override { pos = 0; resets++; }
};
static void epoch(int n, int B, int th) {
  Model m; m.setOutputLabels({"a", "b"}); Source s(n); int right = 0; for (int i = 0; i < n; i++) { s.right[i] = i > 1 ? i & 1 : sym_fork(sym_bool("right")); right += s.right[i]; }
  for (auto &l : m.layers) l->setBatchSize(B);
  Model::Hyperparameters h; h.learning_rate = 0.1; h.batch_size = B; h.num_threads = th; h.num_epochs = 1; int got = m.runEpoch(s, h);
  sym_assert(s.beyond == 0, "no data point is requested once the data is exhausted"); for (int i = 0; i < n; i++) sym_assert(s.taken[i] == 1, "an epoch uses every data point exactly once");
  sym_assert(got == right, "the epoch reports the number of correct predictions"); sym_assert(s.resets == 0 && !s.hasAvailableData(), "the epoch stops at the end of the data");
  if (n == 0) sym_reach("none"); if (th == 1) sym_reach("one"); else sym_reach("several"); if (n % B) sym_reach("partial"); if (th > B) sym_reach("more_threads");
}
ENTRY(c23_epoch) { int T = sym_tier(); int n = sym_dim("n", 0, T ? 5 : 4), B = sym_dim("batch", 1, T ? 4 : 3), th = sym_dim("threads", 1, T ? 4 : 3); sym_assume(((n + B - 1) / B) * (th - 1) <= (T ? 4 : 2)); epoch(n, B, th); }
ENTRY(c23_wide) { int k = sym_dim("case", 0, 3), th = sym_dim("threads", 1, 5), turn = sym_dim("turn", 0, 3); sym_sched(turn ? -1 - turn : 0); epoch(k < 2 ? 20 : k == 2 ? 11 : 9, k == 0 ? 7 : k == 1 ? 32 : k == 2 ? 4 : 3, th); }
ENTRY(c23_long) { int k = sym_dim("case", 0, 3), th = sym_dim("threads", 0, 2), turn = sym_dim("turn", 0, 2); sym_sched(turn ? -1 - turn : 0); epoch(k == 3 ? 200 : 300, k == 0 ? 290 : k == 1 ? 300 : k == 2 ? 7 : 400, th == 0 ? 1 : th == 1 ? 3 : 8); }
ENTRY(c23_printed) { // what training reports
  int n = sym_dim("n", 0, 4), E = sym_dim("epochs", 1, 2), th = sym_dim("threads", 1, 3), turn = sym_dim("turn", 0, 1); n = n < 4 ? n + 1 : 300; Model m; m.setOutputLabels({"a", "b"}); Source s(n); int right = 0; for (int i = 0; i < n; i++) { s.right[i] = i > 1 ? i % 5 != 0 : sym_fork(sym_bool("right")); right += s.right[i]; } Model::Hyperparameters h; h.learning_rate = 0.1; h.batch_size = n < 5 ? 3 : 160; h.num_threads = th; h.num_epochs = E; sym_sched(turn ? -2 : 0); vf_capture(1); m.train(s, h); vf_capture(0);
  std::string t(vf_out_size(), ' '); if (!t.empty()) vf_out_get(&t[0]); size_t p = 0; const std::string key = "Accuracy was "; for (int e = 0; e < E; e++) { p = t.find(key, p); sym_assert(p != std::string::npos, "every epoch reports its accuracy"); if (p == std::string::npos) return; p += key.size(); double d = std::stod(t.substr(p)) - 100.0 * right / n; sym_assert(d < 0.01 && d > -0.01, "the reported accuracy is the share of correct predictions"); } sym_assert(t.find(key, p) == std::string::npos, "one report per epoch"); sym_reach("printed");
}
ENTRY(c23_train) {
  int n = sym_dim("n", 1, 2), B = sym_dim("batch", 1, 2), th = sym_dim("threads", 1, 2), E = sym_dim("epochs", 0, 2); Model m; m.setOutputLabels({"a", "b"}); Source s(n); Model::Hyperparameters h; h.learning_rate = 0.1; h.batch_size = B; h.num_threads = th; h.num_epochs = E; m.train(s, h);
  for (int i = 0; i < n; i++) sym_assert(s.taken[i] == E, "training uses every data point once per epoch"); sym_assert(s.resets == E && s.beyond == 0, "the data is rewound after every epoch"); sym_reach("train");
}
