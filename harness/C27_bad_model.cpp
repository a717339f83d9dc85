//@ entry c27_truncated reach=truncated
//@ entry c27_byte reach=loaded,rejected
//@ entry c27_edit reach=loaded,rejected
//@ entry c27_layer reach=loaded,rejected
//@ entry c27_sizes reach=kernel,full,pool,rejected
//@ entry c27_missing reach=missing
//@ entry c27_negative reach=refused,loaded
//@ entry c27_part reach=matrix,kernel,full,pool,activation
//@ bounds quick: c27_negative: sizes from -2 to 2 and their multiples of 10^9, at least one negative; c27_part: the text of one matrix or layer cut off anywhere before its last entry, or with any letter in place of any digit or letter; every proper prefix of a saved model holding every kind of layer, every replacement of any one byte of a saved model by any byte, the insertion of any byte and the removal of any byte anywhere (names and numbers have to be refused when damaged), layer texts of 5 arbitrary bytes after the layer's name, layers whose size fields are any of -1..2
//@ bounds thorough: two adjacent bytes replaced; 6 arbitrary bytes; size fields -1..3
//@ assume loading starts from an empty model; further text on the line of a section mark (weights, biases, stride) is ignored
#include <sstream>
#include "ml.h"
static const char *text =
  "(0) ----------\nKernel\nx 1\ny 1\nz 1\nn 1\nweights\n1 1 1\n 0.5\n\nbiases\n1 1 1\n 0.25\n\n"
  "(1) ----------\nActivation\nRELU\n(2) ----------\nPooling\nMAX\nx 1\ny 1\nstride\nx 1\ny 1\n"
  "(3) ----------\nConnected Layer\nx 2\ny 1\nweights\n2 1 1\n 0.5\n -0.5\n\nbiases\n2 1 1\n 1.0\n 2.0\n\n(4) ----------\nSoftmax\n\nOutput labels 2\na\nb\n\n";
// whatever was loaded, a load reported as successful gives a usable model
static void usable(Model &q) { SimpleMatrix<double> in(dim3(1, 1, 1), 0.5); for (auto &l : q.layers) l->setBatchSize(1);
  for (auto &l : q.layers) { if (l->getType() == my_cnn::KERNEL) { Kernel &k = (Kernel &)*l; sym_assert(k.biases.size() == k.num_filters && (k.num_filters == 0 || k.weights.dim().z % (int)k.num_filters == 0), "a loaded layer is consistent"); } if (l->getType() == my_cnn::FULLY_CONNECTED) sym_assert(l->weights.size() == 0 || l->weights.dim().x == (int)l->biases.size(), "a loaded layer is consistent"); }
  rejects([&] { q.forwardPropagation(in); }); }
static bool letter(char c) { return (c >= 'a') & (c <= 'z') | (c >= 'A') & (c <= 'Z'); }
static bool number(int at) { return (text[at] >= '0' && text[at] <= '9' || text[at] == '-') && at > 0 && (text[at - 1] == ' ' || text[at - 1] == '\n'); } // the first character of a number, or of a separator's dashes
static bool inLabels(int at) { const char *l = __builtin_strstr(text, "Output labels"); bool head = false; for (int i = at; i >= 0 && text[i] != '\n'; i--) head = text[i] == '('; return at > l - text + 14 || head; } // free text: labels and separator lines
static char anyByte(const char *n) { int b = sym_byte(n); if (b >= '0' && b <= '9') b = sym_fork(b); return (char)b; } // digits one by one: the numbers they form are then concrete
ENTRY(c27_truncated) { long n = __builtin_strlen(text); int cut = sym_dim("cut", 0, (int)n - 3); const char *f = vf_path("model"); vf_put(f, text, cut); Model q; sym_assert(!q.loadModel(f), "a truncated model file is rejected"); sym_reach("truncated"); }
ENTRY(c27_byte) { // one damaged byte: rejected, or loaded into a consistent model; never a crash
  long n = __builtin_strlen(text); std::string t(text, n); int at = sym_dim("at", 0, (int)n - 1); t[at] = anyByte("byte"); if (sym_tier() && at + 1 < n) t[at + 1] = anyByte("byte"); const char *f = vf_path("model"); vf_put(f, t.data(), n); Model q; bool ok = q.loadModel(f);
  if (!sym_tier() && !inLabels(at)) { if (letter(text[at])) sym_assert(!ok || t[at] == text[at], "an unknown or misspelt name is rejected"); else if (number(at)) sym_assert(!ok || !letter(t[at]), "text where a number is expected is rejected"); }
  sym_expect_abort(1); if (ok) { usable(q); sym_reach("loaded"); } else sym_reach("rejected"); }
// a name of a layer, of a kind of pooling or of an activation, where a letter more or less makes another name
static bool name(int at) { if (at < 0 || !letter(text[at])) return false; int a = at, b = at; while (a > 0 && text[a - 1] != '\n') a--; while (text[b] != '\n') b++; static const char *names[] = {"Kernel", "Activation", "Pooling", "MAX", "RELU", "Connected Layer", "Softmax"}; for (const char *n : names) if (b - a == (int)__builtin_strlen(n) && !__builtin_strncmp(text + a, n, b - a)) return true; return false; }
ENTRY(c27_edit) { // one byte too many, or one missing
  long n = __builtin_strlen(text); std::string t(text, n); bool ins = sym_dim("insert", 0, 1); int at = sym_dim("at", 0, (int)n - 1); char b = 0; if (ins) { b = anyByte("byte"); t.insert(t.begin() + at, b); } else t.erase(t.begin() + at); const char *f = vf_path("model"); vf_put(f, t.data(), t.size()); Model q; bool ok = q.loadModel(f);
  if (ins ? name(at) || name(at - 1) : name(at)) sym_assert(!ok || ins && !letter(b), "an unknown or misspelt name is rejected"); else if (ins && number(at) && !inLabels(at)) sym_assert(!ok || !letter(b), "text where a number is expected is rejected");
  sym_expect_abort(1); if (ok) { usable(q); sym_reach("loaded"); } else sym_reach("rejected"); }
ENTRY(c27_layer) { // arbitrary text after the layer's name
  int k = sym_dim("layer", 0, 3), n = sym_tier() ? 6 : 5; std::string t(k == 0 ? "Kernel\n" : k == 1 ? "Pooling\n" : k == 2 ? "Connected Layer\n" : "Activation\n"); for (int i = 0; i < n; i++) t.push_back((char)sym_byte("b")); std::stringstream ss; ss << t; Kernel a(dim3(1, 1, 1), 1, 1); Pooling p(dim2(1, 1), dim2(1, 1)); ConnectedLayer c(1); Activation d(my_cnn::RELU); my_cnn::ModelLayer *L[] = {&a, &p, &c, &d};
  bool ok = false; bool rej = rejects([&] { ok = L[k]->deserialize(ss); }); if (k != 3) sym_assert(rej || !ok, "text that is not a layer is rejected"); sym_reach(rej || !ok ? "rejected" : "loaded"); }
ENTRY(c27_missing) { Model q; sym_assert(!q.loadModel(vf_path("none")), "a missing file is reported"); const char *f = vf_path("empty"); vf_put(f, "", 0); sym_assert(!q.loadModel(f), "an empty file is reported"); sym_assert(q.layers.empty(), "nothing was loaded"); sym_reach("missing"); }
static std::string I(const char *n) { return std::to_string(sym_dim(n, -1, 2 + sym_tier())); }
ENTRY(c27_sizes) { // size fields that contradict each other, or describe no layer at all
  int k = sym_dim("layer", 0, 2), m = sym_dim("matrix", 0, k == 0 ? 2 : 1); std::string t = "(0) ----------\n";
  if (k == 0) t += "Kernel\nx " + I("x") + "\ny " + I("y") + "\nz 1\nn " + I("n") + "\nweights\n" + (m == 1 ? I("wx") + " " + I("wy") + " 1\n" : "1 1 1\n") + " 0.5\n" + (m == 1 ? " 0.5\n 0.25\n 0.25\n" : "") + "\nbiases\n" + (m == 2 ? I("bx") + " " + I("by") : "1 1") + " 1\n 0.25\n\n";
  else if (k == 1) t += "Connected Layer\nx " + I("x") + "\ny " + I("y") + "\nweights\n" + I("wx") + " " + I("wy") + " 1\n 0.5\n 0.5\n\nbiases\n" + (m ? I("bx") : "1") + " 1 1\n 1.0\n\n";
  else t += std::string(m ? "Pooling\nMIN\n" : "Pooling\nAVG\n") + "x " + I("x") + "\ny " + I("y") + "\nstride\nx " + I("sx") + "\ny " + I("sy") + "\n";
  t += "\nOutput labels 1\na\n\n"; const char *f = vf_path("model"); vf_put(f, t.data(), t.size()); Model q; bool ok = q.loadModel(f); if (!ok) { sym_reach("rejected"); return; } sym_reach(k == 0 ? "kernel" : k == 1 ? "full" : "pool"); sym_expect_abort(1); usable(q); }
ENTRY(c27_part) { // the text of a single matrix or layer, as it was saved, damaged
  static const char *names[] = {"matrix", "kernel", "full", "pool", "activation"}; int k = sym_dim("what", 0, 4), cutting = sym_dim("cutting", 0, 1); SimpleMatrix<double> m(dim3(2, 1, 1), 0.5), m2; Kernel a(dim3(1, 2, 1), 1, 1), a2(dim3(1, 1, 1), 1, 1); ConnectedLayer c(2), c2(1); c.checkSize(SimpleMatrix<double>(dim3(1, 1, 1), 0.0)); Pooling p(dim2(2, 3), dim2(1, 1), my_cnn::MIN), p2(dim2(1, 1), dim2(1, 1)); Activation d(my_cnn::SIGMOID), d2(my_cnn::RELU); a.weights[0] = a.weights[1] = c.weights[0] = 0.5; c.weights[1] = c.biases[0] = -1; a.biases[0] = c.biases[1] = 2;
  my_cnn::ModelLayer *L[] = {nullptr, &a, &c, &p, &d}, *Q[] = {nullptr, &a2, &c2, &p2, &d2}; std::ostringstream os; if (k) os << L[k]->serialize(); else m.serialize(os); std::string t = os.str(); auto space = [](char x) { return x == ' ' || x == '\n'; }; auto first = [&](int i) { return !space(t[i]) && (i == 0 || space(t[i - 1])); };
  int last = t.size() - 1; while (last > 0 && !first(last)) last--; int at = sym_dim("at", 0, 160); sym_assume(at <= last); std::string u = t; if (cutting) u.resize(at); else { bool num = first(at) && (t[at] >= '0' && t[at] <= '9' || t[at] == '-'); sym_assume(num || letter(t[at])); char b = (char)sym_byte("byte"); sym_assume(letter(b)); sym_assume(b != t[at]); u[at] = b; }
  std::istringstream is(u); bool ok = false; if (!rejects([&] { ok = k ? Q[k]->deserialize(is) : m2.deserialize(is); }) && ok) sym_assert(false, cutting ? "a text cut off before its end is refused" : "a text with a misspelt name, or without a number where one is expected, is refused"); sym_reach(names[k]);
}
ENTRY(c27_negative) { // a matrix of a size no matrix can have
  int x = sym_dim("x", -2, 2), y = sym_dim("y", -2, 2), z = sym_dim("z", -2, 1), big = sym_dim("big", 0, 3); long X = big == 1 ? x * 1000000000l : x, Y = big == 2 ? y * 1000000000l : y, Z = big == 3 ? z * 1000000000l : z; sym_assume(!big || X < 0 || Y < 0 || Z < 0); bool bad = X < 0 || Y < 0 || Z < 0; std::string t = std::to_string(X) + " " + std::to_string(Y) + " " + std::to_string(Z) + "\n 1 2 \n 3 4 \n\n"; if (!bad && X * Y * Z != 4) return;
  SimpleMatrix<double> m(dim3(1, 1, 1), 7.0); std::istringstream is(t); bool ok = false, rej = rejects([&] { ok = m.deserialize(is); }); sym_assert(bad == (rej || !ok), "a matrix of a size no matrix can have is refused"); sym_assert((size_t)m.dim().x * m.dim().y * m.dim().z == m.size(), "the matrix is consistent"); sym_reach(bad ? "refused" : "loaded");
}
