//@ entry c32_source reach=source
//@ entry c32_train reach=train
//@ entry c32_wide reach=wide
//@ entry c32_long reach=long
//@ bounds quick: 1..3 images of 1x2 pixels with every pixel value, labels 0..255 (two of them), two passes, every break-off point of the first; training for 1..2 epochs in batches of 1..3; c32_wide: 20 images with two-digit labels; c32_long: 300 images of 2x1 pixels, one of 1x300, one of 300x1 and one of 17x18
//@ bounds thorough: up to 4 images
#include "pr.h"
static void fill(Files &f, int n) { static const int L[] = {7, 255, 0, 10}; for (int i = 0; i < n; i++) { std::vector<int> p; for (int k = 0; k < f.H * f.W; k++) p.push_back(sym_byte("px")); f.add(p, L[i % 4]); } f.put(vdir() + "i", vdir() + "l"); }
static void same(const Files &f, const my_cnn::LabeledInput<float> &d, int i) { sym_assert(d.data.dim() == dim3(f.H, f.W, 1), "a data point has the size of the images"); sym_assert(d.label == std::to_string(f.l[i]), "a data point carries the label of its image, in decimal"); for (int r = 0; r < f.H; r++) for (int c = 0; c < f.W; c++) sym_close(d.data(r, c, 0), (f.px[i][r * f.W + c] - 128) / 255.0, "a data point is the next image of the file"); }
ENTRY(c32_source) {
  int n = sym_dim("n", 1, 3 + sym_tier()); Files f(n, 1, 2); fill(f, n); MNistGenerator g(vdir() + "i", vdir() + "l"); sym_assert(g.size() == (size_t)n, "the source has as many data points as the files have images");
  int stop = sym_dim("stop", 0, n); for (int i = 0; i < stop; i++) { sym_assert(g.hasAvailableData(), "data is available until every image has been used"); same(f, g.getNextDataPoint(), i); } sym_assert(g.hasAvailableData() == (stop < n), "the end is reported after the last image"); g.reset();
  for (int i = 0; i < n; i++) { sym_assert(g.hasAvailableData(), "after rewinding everything is available again"); same(f, g.getNextDataPoint(), i); } sym_assert(!g.hasAvailableData(), "the end is reported after the last image"); sym_reach("source");
}
// the source as the training loop sees it
struct Spy : MNistGenerator { std::vector<int> seen; const Files &f; Spy(const Files &f, std::string a, std::string b) : MNistGenerator(a, b), f(f) {}
  my_cnn::LabeledInput<float> getNextDataPoint() override { auto d = MNistGenerator::getNextDataPoint(); for (size_t i = 0; i < f.px.size(); i++) if (std::fabs(d.data(0, 0, 0) * 255 + 128 - f.px[i][0]) < 0.01) seen.push_back(i); return d; } };
ENTRY(c32_train) {
  int n = sym_dim("n", 1, 4), B = sym_dim("batch", 1, 3), E = sym_dim("epochs", 1, 2); Files f(n, 1, 1); for (int i = 0; i < n; i++) f.add({40 + 30 * i}, i & 1); f.put(vdir() + "i", vdir() + "l"); Spy g(f, vdir() + "i", vdir() + "l"); sym_sched(0);
  typedef my_cnn::ModelDescription<float, std::string> FM; FM m; m.addConnectedLayer(2); m.setOutputLabels({"0", "1"}); FM::Hyperparameters h; h.learning_rate = 0.1; h.batch_size = B; h.num_threads = 1; h.num_epochs = E; m.train(g, h);
  sym_assert(g.seen.size() == (size_t)(n * E), "every epoch uses every image of the file"); for (int i = 0; i < n * E; i++) sym_assert(g.seen[i] == i % n, "every epoch uses the images in file order, each once"); sym_reach("train");
}
ENTRY(c32_wide) { // labels with two digits, more images
  Files f(20, 2, 2); for (int i = 0; i < 20; i++) f.add({i, 255 - i, 3 * i, 128}, i * 13); f.put(vdir() + "i", vdir() + "l"); MNistGenerator g(vdir() + "i", vdir() + "l"); sym_assert(g.size() == 20, "the source has as many data points as the files have images"); for (int pass = 0; pass < 2; pass++) { for (int i = 0; i < 20; i++) { sym_assert(g.hasAvailableData(), "data is available until every image has been used"); same(f, g.getNextDataPoint(), i); } sym_assert(!g.hasAvailableData(), "the end is reported after the last image"); g.reset(); } sym_reach("wide");
}
ENTRY(c32_long) { // hundreds of images, rows or columns
  int k = sym_dim("case", 0, 3), n = k ? 2 : 300; Files f(n, k == 0 ? 2 : k == 1 ? 1 : k == 2 ? 300 : 17, k == 0 ? 1 : k == 1 ? 300 : k == 2 ? 1 : 18); for (int i = 0; i < n; i++) { std::vector<int> p; for (int j = 0; j < f.H * f.W; j++) p.push_back((i * 31 + j * 7) % 256); f.add(p, (i * 3) % 256); } f.put(vdir() + "i", vdir() + "l");
  MNistGenerator g(vdir() + "i", vdir() + "l"); sym_assert(g.size() == (size_t)n, "the source has as many data points as the files have images"); for (int pass = 0; pass < 2; pass++) { for (int i = 0; i < n; i++) { sym_assert(g.hasAvailableData(), "data is available until every image has been used"); same(f, g.getNextDataPoint(), i); } sym_assert(!g.hasAvailableData(), "the end is reported after the last image"); g.reset(); } sym_reach("long");
}
