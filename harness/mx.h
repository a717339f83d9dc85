// Helpers shared by the matrix and layer harnesses.
#pragma once
#include <type_traits>
#include <utility>
#include <vector>
#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
#include "sym.h"
using my_cnn::dim2;
using my_cnn::dim3;
using my_cnn::SimpleMatrix;
using my_cnn::SubMatrixView;

template <class T> T symT(const char *n) {
  if constexpr (std::is_same_v<T, double>) return sym_double(n);
  else if constexpr (std::is_same_v<T, float>) return sym_float(n);
  else if constexpr (std::is_same_v<T, unsigned char>) return sym_byte(n);
  else return (T)sym_int(n, -1000000, 1000000);
}
// a few shapes well beyond the exhaustive bounds
struct Shape { int X, Y, Z; };
static inline Shape wideShape() { int k = sym_dim("wide", 0, 7); static const Shape s[] = {{9, 5, 3}, {1, 33, 1}, {18, 1, 2}, {4, 7, 5}, {300, 1, 1}, {1, 300, 1}, {1, 1, 300}, {18, 17, 1}}; return s[k]; }
// matrices with more elements than 16 bits can count
static inline Shape hugeShape() { int k = sym_dim("huge", 0, 6); static const Shape s[] = {{300, 230, 2}, {70000, 1, 1}, {1, 70000, 1}, {1, 1, 70000}, {300, 230, 1}, {260, 1, 260}, {2, 260, 130}}; return s[k]; }
#define HUGE_SHAPE Shape W = hugeShape(); int X = W.X, Y = W.Y, Z = W.Z
#define HUGE_FEW Shape W = fewShape(); int X = W.X, Y = W.Y, Z = W.Z
static inline Shape fewShape() { if (sym_tier()) return hugeShape(); if (sym_dim("huge", 0, 1)) return {1, 70000, 1}; return {2, 260, 130}; }
static inline int fewPos(int n) { if (sym_dim("pos", 0, 1)) return 65536; return n - 1; }
static inline int hugePos(int n) { int k = sym_dim("pos", 0, 4); const int at[] = {0, 65535, 65536, 65537, n - 1}; return at[k]; }
static inline dim3 posOf(int n, int X, int Y) { return dim3(n % X, n / X % Y, n / X / Y); }
#define WIDE Shape W = wideShape(); int X = W.X, Y = W.Y, Z = W.Z
// bit-precise entries: any double between 1 and 1e6, every bit of which must survive (no detour through a narrower type)
static inline double posDouble(const char *n) { double v = sym_double(n); sym_assume(v >= 1e-200 && v <= 1e200); return v; }
static inline double fullDouble(const char *n) { double v = sym_double(n); sym_assume((v >= 1e-200 && v <= 1e200) || (v <= -1e-200 && v >= -1e200)); return v; }
// Reference matrix: plain array addressed by coordinates.
template <class T> struct Ref {
  int X, Y, Z; std::vector<T> v;
  Ref(int x, int y, int z) : X(x), Y(y), Z(z), v((size_t)x * y * z) {}
  T &at(int x, int y, int z) { return v[((size_t)z * Y + y) * X + x]; }
  const T &at(int x, int y, int z) const { return v[((size_t)z * Y + y) * X + x]; }
};
#define EACH(R, x, y, z) for (int z = 0; z < (R).Z; z++) for (int y = 0; y < (R).Y; y++) for (int x = 0; x < (R).X; x++)
template <class T> Ref<T> symRef(const char *n, int x, int y, int z) { Ref<T> r(x, y, z); for (auto &e : r.v) e = symT<T>(n); return r; }
template <class T> Ref<T> symRefIn(const char *n, int x, int y, int z, T lo, T hi) { Ref<T> r(x, y, z); for (auto &e : r.v) e = std::is_same_v<T, float> ? (T)sym_float_in(n, lo, hi) : (T)sym_double_in(n, lo, hi); return r; }
template <class T> SimpleMatrix<T> toMatrix(const Ref<T> &r) {
  SimpleMatrix<T> m(dim3(r.X, r.Y, r.Z));
  EACH(r, x, y, z) m(x, y, z) = r.at(x, y, z);
  return m;
}
// the storage of a matrix agrees with the size it reports
template <class T> void expectConsistent(const SimpleMatrix<T> &m) {
  size_t n = (size_t)m.dim().x * m.dim().y * m.dim().z; SimpleMatrix<T> c(m);
  sym_assert(m.size() == n && (size_t)(m.end() - m.begin()) == n, "a matrix holds as many elements as its size says");
  bool bad = true; try { c = std::vector<T>(n); bad = false; } catch (...) {} sym_assert(!bad, "a matrix holds as many elements as its size says");
  bad = false; try { c = std::vector<T>(n + 1); bad = true; } catch (...) {} sym_assert(!bad, "a matrix holds as many elements as its size says");
}
template <class M> struct IsSimple : std::false_type {}; template <class T> struct IsSimple<SimpleMatrix<T>> : std::true_type {};
// a matrix-like object holds exactly the reference
template <class M, class T> void expectSame(const M &m, const Ref<T> &r, const char *label) {
  sym_assert(m.dim().x == r.X && m.dim().y == r.Y && m.dim().z == r.Z, label);
  if constexpr (IsSimple<M>::value) expectConsistent(m);
  EACH(r, x, y, z) {
    if constexpr (std::is_floating_point_v<T>) sym_close((double)m(dim3(x, y, z)), (double)r.at(x, y, z), label);
    else sym_assert(m(dim3(x, y, z)) == r.at(x, y, z), label);
  }
}
template <class F> bool rejects(F f) { try { f(); } catch (...) { return true; } return false; }
