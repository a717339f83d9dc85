//@ entry c28_images reach=sequential,random,mixed
//@ entry c28_wide reach=wide
//@ entry c28_large reach=large
//@ entry c28_end reach=end
//@ entry c28_header reach=good
//@ entry c28_truncated reach=cut
//@ entry c28_many reach=many
//@ bounds quick: c28_many: 70000 images of one pixel, one of them with any pixel and label; 1..3 images of 1..2 x 1..3 pixels, every pixel and label value, three accesses in any mix of sequential and random order; any four header bytes replaced; files cut at any byte; c28_wide: 2 images of 300x1 and 1x300 pixels, 300 images of one pixel; c28_large: 67 images of 32x32 pixels, more than 65536 bytes
//@ bounds thorough: up to 4 images, five accesses
#include "cnn_from_scratch/MNISTReader.h"
#include "mx.h"
static void be(std::string &s, unsigned v) { for (int i = 3; i >= 0; i--) s.push_back((char)(v >> (8 * i))); }
struct Files { std::string img, lab; std::vector<std::vector<unsigned char>> px; std::vector<unsigned char> l; int n, H, W;
  Files(int n, int H, int W) : n(n), H(H), W(W) { be(img, 2051); be(img, n); be(img, H); be(img, W); be(lab, 2049); be(lab, n); for (int i = 0; i < n; i++) { px.emplace_back(); for (int k = 0; k < H * W; k++) { unsigned char b = sym_byte("px"); px[i].push_back(b); img.push_back((char)b); } unsigned char b = sym_byte("label"); l.push_back(b); lab.push_back((char)b); } }
  void put() { vf_put(vf_path("img"), img.data(), img.size()); vf_put(vf_path("lab"), lab.data(), lab.size()); }
  void same(const my_cnn::Image &m, int i) { sym_assert(m.data.dim() == dim3(H, W, 1), "image has the size the file says"); sym_assert(m.label == l[i], "label belongs to the image");
    for (int r = 0; r < H; r++) for (int c = 0; c < W; c++) sym_close(m.data(r, c, 0), ((int)px[i][r * W + c] - 128) / 255.0, "pixels are stored row by row, scaled around zero"); } };
ENTRY(c28_images) {
  int T = sym_tier(); int n = sym_dim("n", 1, T ? 4 : 3), H = sym_dim("H", 1, 2), W = sym_dim("W", 1, 3); Files f(n, H, W); f.put(); my_cnn::MNISTReader r(vf_path("img"), vf_path("lab")); sym_assert(r.numImages() == (size_t)n && r.imageIndex() == 0, "number of images");
  int pos = 0, seq = 0, rnd = 0; for (int k = 0; k < (T ? 5 : 3); k++) { int how = sym_dim("how", -1, n - 1); if (how < 0) { if (pos >= n) { sym_assert(rejects([&] { r.nextImage(); }), "no image past the end"); continue; } f.same(r.nextImage(), pos++); seq++; } else { f.same(r.getImage(how), how); pos = how + 1; rnd++; } sym_assert(r.imageIndex() == (size_t)pos, "position after reading"); }
  if (seq && rnd) sym_reach("mixed"); else if (seq) sym_reach("sequential"); else sym_reach("random");
}
ENTRY(c28_large) { // offsets that need more than two bytes
  int n = 67, S = 32; Files f(0, S, S); f.n = n; f.img[6] = f.lab[6] = 0; f.img[7] = f.lab[7] = (char)n; for (int i = 0; i < n; i++) { f.px.emplace_back(); for (int k = 0; k < S * S; k++) { unsigned char b = i > 60 && k == 5 * i ? sym_byte("px") : (unsigned char)(k * 3 + i * 11 + k / 256); f.px[i].push_back(b); f.img.push_back((char)b); } unsigned char b = sym_byte("label"); f.l.push_back(b); f.lab.push_back((char)b); }
  f.put(); my_cnn::MNISTReader r(vf_path("img"), vf_path("lab")); sym_assert(r.numImages() == (size_t)n, "number of images"); f.same(r.getImage(63), 63); f.same(r.nextImage(), 64); f.same(r.getImage(n - 1), n - 1); sym_assert(rejects([&] { r.nextImage(); }), "no image past the end"); f.same(r.getImage(2), 2); sym_reach("large");
}
ENTRY(c28_end) { // reading past the end is reported and does not disturb later accesses
  int n = sym_dim("n", 1, 2), bad = sym_dim("bad", 0, 3); Files f(n, 1, 2); f.put(); my_cnn::MNISTReader r(vf_path("img"), vf_path("lab")); for (int i = 0; i < n; i++) f.same(r.nextImage(), i); sym_assert(rejects([&] { r.nextImage(); }), "no image past the end"); sym_assert(rejects([&] { r.getImage(n + bad); }), "no image with an index past the end"); int i = sym_dim("i", 0, n - 1); f.same(r.getImage(i), i); sym_reach("end");
}
ENTRY(c28_header) { // wrong magic numbers or contradicting counts never yield a reader
  int where = sym_dim("field", 0, 3); Files f(1, 1, 1); std::string &s = where < 2 ? f.img : f.lab; int at = (where & 1) * 4; bool same = true; for (int k = 0; k < 4; k++) { unsigned char b = sym_byte("h"); same &= b == (unsigned char)s[at + k]; s[at + k] = (char)b; } f.put(); sym_expect_abort(1); bool rej = false; try { my_cnn::MNISTReader r(vf_path("img"), vf_path("lab")); sym_assert(r.numImages() == 1, "count"); } catch (...) { rej = true; } sym_assert(rej || same, "files that are not a matching pair of image and label files are rejected"); sym_assert(!(rej && same), "a proper pair is accepted"); sym_reach("good");
}
ENTRY(c28_truncated) {
  bool lab = sym_fork(sym_bool("lab")); Files f(2, 1, 2); std::string &s = lab ? f.lab : f.img; int cut = sym_dim("cut", 0, (int)s.size() - 1); s.resize(cut); f.put(); int ok = 0; bool rej = rejects([&] { my_cnn::MNISTReader r(vf_path("img"), vf_path("lab")); for (int i = 0; i < 2; i++) { f.same(r.nextImage(), i); ok++; } }); sym_assert(rej, "a file that ends early is reported, not filled up with something"); int whole = lab ? cut - 8 : (cut - 16) / 2; sym_assert(ok == (whole < 0 ? 0 : whole > 2 ? 2 : whole), "images before the cut are delivered"); sym_reach("cut");
}
ENTRY(c28_wide) { // sizes and counts that need more than one byte
  int k = sym_dim("k", 0, 2), n = k == 2 ? 300 : 2; Files f(n, k == 0 ? 300 : 1, k == 1 ? 300 : 1); f.put(); my_cnn::MNISTReader r(vf_path("img"), vf_path("lab")); sym_assert(r.numImages() == (size_t)n, "number of images"); f.same(r.nextImage(), 0); f.same(r.nextImage(), 1); f.same(r.getImage(n - 1), n - 1); sym_assert(rejects([&] { r.nextImage(); }), "no image past the end"); f.same(r.getImage(n / 2), n / 2); sym_reach("wide");
}
ENTRY(c28_many) { // more images than 16 bits can count
  int n = 70000, at = 65537 - 1000 * sym_dim("at", 0, 2); Files f(0, 1, 1); f.n = n; f.img[4] = f.img[5] = f.img[6] = f.img[7] = 0; for (int k = 0; k < 4; k++) f.img[4 + k] = f.lab[4 + k] = (char)(n >> (24 - 8 * k)); f.px.assign(n, std::vector<unsigned char>(1)); f.l.resize(n);
  for (int i = 0; i < n; i++) { unsigned char p = (unsigned char)(i * 7 + i / 256), b = (unsigned char)(i % 10 + (i / 4096) * 10); if (i == at) { p = sym_byte("px"); b = sym_byte("label"); } f.px[i][0] = p; f.l[i] = b; f.img.push_back((char)p); f.lab.push_back((char)b); }
  f.put(); my_cnn::MNISTReader r(vf_path("img"), vf_path("lab")); sym_assert(r.numImages() == (size_t)n, "number of images"); for (int i : {at, 35001, 4464, n - 2, 60000}) f.same(r.getImage(i), i); f.same(r.nextImage(), 60001); f.same(r.getImage(n - 1), n - 1); sym_assert(rejects([&] { r.nextImage(); }), "no image past the end"); f.same(r.getImage(1), 1); f.same(r.nextImage(), 2); sym_reach("many");
}
