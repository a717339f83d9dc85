//@ entry c34_gray reach=gray
//@ entry c34_bytes reach=bytes
//@ entry c34_color reach=color
//@ entry c34_matrix reach=matrix
//@ entry c34_progress reach=bar
//@ entry c34_dim reach=dim
//@ entry c34_wide reach=wide
//@ entry c34_long reach=long
//@ bounds quick: gray images of 1..2 x 1..2 pixels, five value ranges (darkest and brightest from a list, every value between), byte images with four darkest values, colour images of 1..2 pixels with three brightest values and every other value from -1000; matrices of up to four elements of every value within +-100 (double) or +-9999 (int), and a view; progress bars of 1, 50 and 60 cells for every step of 1..12; c34_wide: 28x3 pixels, 9x4 colour pixels, 7x5x3 matrix; c34_long: images and matrices with 300 rows, columns or layers, progress of up to 70000 steps
//@ bounds thorough: one more row of pixels, one more matrix shape, progress up to 40 steps
#include <array>
#include <sstream>
#include "cnn_from_scratch/imageUtil.h"
#include "cnn_from_scratch/LoadingBar.h"
#include "mx.h"
static std::string captured() { std::string t(vf_out_size(), ' '); if (!t.empty()) vf_out_get(&t[0]); return t; }
#define ALL(M, x, y, z) for (int z = 0; z < (M).dim().z; z++) for (int y = 0; y < (M).dim().y; y++) for (int x = 0; x < (M).dim().x; x++)
// rows of coloured cells: what a terminal shows
typedef std::vector<std::vector<std::array<int, 3>>> Cells;
static Cells parse(const std::string &t) { // every cell is "ESC[48;2;R;G;Bm"
  std::istringstream is(t); Cells r; r.emplace_back(); int c;
  while ((c = is.get()) != EOF) { if (c == '\n') r.emplace_back(); if (c != 27) continue; if (is.get() != '[' || is.peek() == '?') continue; std::vector<int> v; int x, sep = 0; do { if (!(is >> x)) break; v.push_back(x); sep = is.get(); } while (sep == ';'); sym_assert(sep == 'm', "well-formed colour"); if (v.size() == 5) { sym_assert(v[0] == 48 && v[1] == 2, "background colour"); r.back().push_back({v[2], v[3], v[4]}); } }
  sym_assert(r.back().empty(), "the last line is complete"); r.pop_back(); return r;
}
template <class M> static Cells show(const M &m) { vf_capture(1); my_cnn::printImage(m); vf_capture(0); Cells c = parse(captured()); sym_assert((int)c.size() == m.dim().x, "one line per row of the image"); for (auto &l : c) sym_assert((int)l.size() == m.dim().y, "one cell per pixel"); return c; }
template <class T> static void gray(const SimpleMatrix<T> &m, double top) { // top: the brightest possible value
  Cells c = show(m); double lo = m(0, 0, 0); ALL(m, x, y, z) if (m(x, y, 0) < lo) lo = m(x, y, 0);
  for (int x = 0; x < m.dim().x; x++) for (int y = 0; y < m.dim().y; y++) { auto &p = c[x][y]; double v = m(x, y, 0), g = p[0]; sym_assert(p[0] == p[1] && p[1] == p[2], "a gray level"); sym_assert(p[0] >= 0 && p[0] <= 255, "gray levels are bytes"); if (top > lo) { double d = g * (top - lo) - 255 * (v - lo); sym_assert(d <= (top - lo) * 1.001 && -d <= (top - lo) * 1.001, "gray levels are proportional to the values, darkest 0 and brightest 255"); } else sym_assert(p[0] == 255, "an image of only the brightest value is bright"); }
}
// the darkest and the brightest value are chosen from a list (their quotients stay linear); every value between them
ENTRY(c34_gray) {
  int T = sym_tier(), X = sym_dim("X", 1, 2), Y = sym_dim("Y", 1, 2 + T), at = sym_dim("darkest", 0, X * Y - 1), k = sym_dim("range", 0, 4); double lo = k == 0 ? 0 : k == 1 ? -3.5 : k == 2 ? 0.25 : k == 3 ? 1 : 700, top = k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 1 : k == 3 ? 1 : 1000;
  SimpleMatrix<double> m(dim3(X, Y, 1)); int i = 0; bool hi = false; for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++, i++) if (i == at) m(x, y, 0) = lo; else if (!hi && top > 1) hi = true, m(x, y, 0) = top; else m(x, y, 0) = sym_double_in("v", lo, top);
  if (top > 1 && !hi) top = lo < 1 ? 1 : lo; gray(m, top); sym_reach("gray");
}
ENTRY(c34_bytes) {
  int Y = sym_dim("Y", 1, 2 + sym_tier()), k = sym_dim("darkest", 0, 3), lo = k == 0 ? 0 : k == 1 ? 9 : k == 2 ? 254 : 255; SimpleMatrix<unsigned char> m(dim3(1, Y, 1)); m(0, 0, 0) = lo; for (int y = 1; y < Y; y++) { int v = sym_int("v", lo, 255); m(0, y, 0) = v; } gray(m, 255); sym_reach("bytes");
}
ENTRY(c34_color) {
  int Y = sym_dim("Y", 1, 2), k = sym_dim("brightest", 0, 2), at = sym_dim("at", 0, 3 * Y - 1); double top = k == 0 ? 1 : k == 1 ? 3.5 : 255; SimpleMatrix<double> m(dim3(1, Y, 3)); int i = 0; ALL(m, x, y, z) m(x, y, z) = i++ == at ? (k ? top : 0.5) : sym_double_in("v", -1000, top);
  Cells c = show(m); ALL(m, x, y, z) { double v = m(x, y, z) > 0 ? m(x, y, z) : 0, d = c[x][y][z] * top - 255 * v; sym_assert(c[x][y][z] >= 0 && c[x][y][z] <= 255, "colour components are bytes"); sym_assert(d <= top * 1.001 && -d <= top * 1.001, "colour components are proportional to the values, in channel order"); } sym_reach("color");
}
// the numbers on each line of a printed matrix
static std::vector<std::vector<double>> numbers(const std::string &t) {
  std::istringstream is(t); std::vector<std::vector<double>> r; r.emplace_back(); int c; bool neg = false;
  while ((c = is.peek()) != EOF) { if (c == '-') neg = true; if (c == '\n') r.emplace_back(); if (c == 1 || (c >= '0' && c <= '9')) { double v; is >> v; r.back().push_back(neg ? -v : v); neg = false; } else is.get(); }
  std::vector<std::vector<double>> q; for (auto &l : r) if (!l.empty()) q.push_back(l); return q;
}
template <class M> static void shows(const std::string &t, const M &m, double tol) {
  auto r = numbers(t); sym_assert((int)r.size() == m.dim().x, "one line per row"); for (auto &l : r) sym_assert((int)l.size() == m.dim().y * m.dim().z, "every column of every layer on the line");
  ALL(m, x, y, z) { double d = r[x][z * m.dim().y + y] - (double)m(x, y, z); sym_assert(d <= tol && -d <= tol, "every element stands in its place, with its sign"); }
}
template <class M> static void both(const M &m, double tol) {
  vf_capture(1); std::cout << 1.23456789 << "\n"; vf_capture(0); std::string a = captured(); vf_capture(1); std::cout << m; vf_capture(0); shows(captured(), m, tol); vf_capture(1); std::cout << 1.23456789 << "\n"; vf_capture(0); sym_assert(a == captured(), "printing a matrix leaves the format of later output alone");
  std::ostringstream os; os << m; shows(os.str(), m, tol);
}
ENTRY(c34_matrix) {
  int k = sym_dim("kind", 0, 2), h = sym_dim("shape", 0, 2 + sym_tier()); dim3 d(h == 1 || h == 3 ? 2 : 1, h == 2 || h == 3 ? 2 : 1, h == 2 || h == 1 ? 2 : 1);
  if (k == 0) { SimpleMatrix<double> m(d); ALL(m, x, y, z) m(x, y, z) = sym_double_in("v", -100, 100); both(m, 0.00501); }
  if (k == 1) { SimpleMatrix<int> m(d); ALL(m, x, y, z) m(x, y, z) = sym_int("v", -9999, 9999); both(m, 0); }
  if (k == 2) { SimpleMatrix<float> m(dim3(d.x + 1, d.y + 1, d.z)); ALL(m, x, y, z) m(x, y, z) = (x * 37 + y * 11 + z * 5) / 8.0f - 3; both(m.subMatView(dim3(1, 1, 0), d), 0.00501); }
  sym_reach("matrix");
}
ENTRY(c34_progress) {
  int W = sym_dim("width", 0, 2), w = W == 0 ? 1 : W == 1 ? 50 : 60, N = sym_dim("total", 1, sym_tier() ? 40 : 12), i = sym_dim("step", 0, N - 1); vf_capture(1); loadingBar(i, N, w); vf_capture(0); std::string t = captured(); size_t a = t.find("\r["), b = t.find(']'), p = t.find('%'); if (a != std::string::npos) a++; sym_assert(a != std::string::npos && b != std::string::npos && p != std::string::npos && a < b && b < p, "a bar and a percentage");
  if (a == std::string::npos || b == std::string::npos || p == std::string::npos) return; sym_assert((int)(b - a) == w, "the bar always has the requested width"); int full = 0; for (size_t k = a + 1; k < b; k++) full += t[k] == '='; for (int k = 0; k < full; k++) sym_assert(t[a + 1 + k] == '=', "the bar fills from the left"); double d = full - (double)w * i / N; sym_assert(d <= 1 && d >= -1, "the filled part is the finished share"); size_t q = b; while (q < p && !(t[q] >= '0' && t[q] <= '9')) q++; int pc = std::stoi(t.substr(q)); double e = pc - 100.0 * i / N; sym_assert(pc >= 1 && pc <= 100 && e >= -1 && e <= 1.01, "the percentage is that of the finished share"); sym_reach("bar");
}
ENTRY(c34_dim) {
  dim3 d(sym_int("x", -2147483647, 2147483647), sym_int("y", -2147483647, 2147483647), sym_int("z", -2147483647, 2147483647)); std::ostringstream os; os << d << dim2(sym_fork(sym_int("n", -1, 1)), 12); std::istringstream is(os.str()); char c[8]; int v[5]; is >> c[0] >> v[0] >> c[1] >> v[1] >> c[2] >> v[2] >> c[3] >> c[4] >> v[3] >> c[5] >> v[4] >> c[6]; sym_assert(!is.fail(), "a size prints as numbers in parentheses"); sym_assert(v[0] == d.x && v[1] == d.y && v[2] == d.z && v[4] == 12, "every component, in order"); sym_assert(c[0] == '(' && c[3] == ')' && c[4] == '(' && c[6] == ')', "parentheses around each size"); sym_reach("dim");
}
ENTRY(c34_wide) {
  SimpleMatrix<double> m(dim3(28, 3, 1)); double top = 1; ALL(m, x, y, z) { m(x, y, z) = (x * 17 + y * 29) % 97 / 32.0 - 0.5; if (m(x, y, z) > top) top = m(x, y, z); } gray(m, top); SimpleMatrix<float> c(dim3(4, 9, 3)); ALL(c, x, y, z) c(x, y, z) = (x * 5 + y * 3 + z * 2) % 19 / 19.0f; Cells r = show(c); ALL(c, x, y, z) { double d = r[x][y][z] - 255.0 * c(x, y, z); sym_assert(d <= 1.01 && d >= -1.01, "colour components are proportional to the values, in channel order"); }
  SimpleMatrix<double> w(dim3(7, 5, 3)); ALL(w, x, y, z) w(x, y, z) = (x * 31 + y * 7 + z * 3) % 23 / 4.0 - 2.5; both(w, 0.00501); sym_reach("wide");
}
ENTRY(c34_long) { // hundreds of rows, columns or layers
  int k = sym_dim("case", 0, 3); if (k < 2) { SimpleMatrix<double> m(k ? dim3(1, 300, 1) : dim3(300, 1, 1)); ALL(m, x, y, z) m(x, y, z) = (x * 17 + y * 29) % 97 / 96.0; gray(m, 1); } if (k < 3) { SimpleMatrix<int> m(k == 0 ? dim3(300, 1, 1) : k == 1 ? dim3(1, 300, 1) : dim3(1, 1, 300)); ALL(m, x, y, z) m(x, y, z) = (x * 37 + y * 17 + z * 5) % 1009 - 500; vf_capture(1); std::cout << m; vf_capture(0); shows(captured(), m, 0); }
  if (k == 3) for (int i : {0, 130, 300, 32999, 40000, 69999}) { vf_capture(1); loadingBar(i, 70000, 50); vf_capture(0); std::string t = captured(); size_t a = t.find("\r["), b = t.find(']'); sym_assert(a != std::string::npos && b != std::string::npos && a < b, "a bar"); if (a == std::string::npos || b == std::string::npos) return; int full = 0; for (size_t j = a; j < b; j++) full += t[j] == '='; double d = full - 50.0 * i / 70000; sym_assert((int)(b - a) == 51 && d <= 1 && d >= -1, "the filled part is the finished share"); } sym_reach("long");
}
