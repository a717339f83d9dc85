//@ entry c22_value fp=abs reach=value
//@ entry c22_monotone reach=mono
//@ entry c22_label reach=known,unknown
//@ entry c22_long reach=long
//@ bounds quick: 1..3 labels (all distinct), every position of the true label, any string of up to 2 letters as given label; probabilities any double in [0,1]; c22_long: 300 labels, six positions of the true one
//@ bounds thorough: up to 4 labels
//@ assume log2 is monotone with its usual signs and ranges
#include "ml.h"
static Model model(int n) { Model m; std::vector<std::string> L; for (int i = 0; i < n; i++) L.push_back(std::string(1, 'a' + i)); m.setOutputLabels(L); return m; }
ENTRY(c22_value) {
  int n = sym_dim("n", 1, sym_tier() ? 4 : 3), t = sym_dim("t", 0, n - 1); Model m = model(n); Results r; SimpleMatrix<float> p(dim3(n, 1, 1)); for (int i = 0; i < n; i++) { p[i] = sym_float("p"); sym_assume(p[i] >= 0 && p[i] <= 1); } r.layer_inputs.push_back(p);
  m.assignLoss(r, std::string(1, 'a' + t)); sym_assert(r.loss >= 0, "the loss is never negative and never undefined"); sym_assert(r.loss <= 4096.0f, "the loss is finite, even for probability zero");
  sym_assert(r.true_label_idx == (size_t)t && r.true_label && *r.true_label == std::string(1, 'a' + t), "the true label is recorded"); sym_reach("value");
}
ENTRY(c22_monotone) {
  Model m = model(2); SimpleMatrix<double> p(dim3(2, 1, 1)); double a = sym_double_in("p", 0, 1), b = sym_double_in("q", 0, 1); sym_assume(a <= b); p[0] = a; p[1] = 0.5; float la = m.lossFcn(p, 0); p[0] = b; p[1] = 0.25; float lb = m.lossFcn(p, 0); 
  sym_assert(lb <= la, "a larger probability of the true label never has a larger loss, whatever the others are"); p[1] = b; sym_close(m.lossFcn(p, 1), lb, "the loss is that of the true label"); if (a + 0.0001 < b && b < 0.9999) sym_assert(lb < la, "a larger probability has a smaller loss"); sym_reach("mono");
}
ENTRY(c22_label) {
  int n = sym_dim("n", 1, 3), len = sym_dim("len", 0, 2); Model m = model(n); Results r; r.layer_inputs.push_back(SimpleMatrix<float>(dim3(n, 1, 1), 0.5f)); std::string l; for (int i = 0; i < len; i++) { int c = sym_int("c", 'a', 'd'); l.push_back((char)c); }
  bool known = false; int at = -1; for (int i = 0; i < n; i++) if (len == 1 && l[0] == 'a' + i) { known = true; at = i; }
  bool rej = rejects([&] { m.assignLoss(r, l); }); sym_assert(rej == !known, "a label the model does not know is rejected"); if (known) { sym_assert(r.true_label_idx == (size_t)at, "index of the label"); sym_reach("known"); } else sym_reach("unknown");
}
ENTRY(c22_long) { // hundreds of labels
  int n = 300, k = sym_dim("t", 0, 5); static const int at[] = {0, 127, 128, 255, 256, 299}; int t = at[k]; Model m; std::vector<std::string> L; for (int i = 0; i < n; i++) L.push_back("label " + std::to_string(i)); m.setOutputLabels(L); Results r, q; SimpleMatrix<float> p(dim3(n, 1, 1), 0.001f); float v = sym_float("p"); sym_assume(v >= 0 && v <= 1); p[t] = v; r.layer_inputs.push_back(p);
  m.assignLoss(r, L[t]); sym_assert(r.true_label_idx == (size_t)t && *r.true_label == L[t], "the true label is recorded"); sym_close(r.loss, m.lossFcn(p, t), "the loss is that of the true label"); for (int i = 0; i < n; i++) if (i != t) p[i] = 0.5f; q.layer_inputs.push_back(p); m.assignLoss(q, L[t]); sym_close(r.loss, q.loss, "the loss does not depend on the other labels"); sym_reach("long");
}
