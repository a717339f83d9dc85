//@ entry c10_resize reach=grown,shrunk
//@ entry c10_history reach=history
//@ entry c10_reshape reach=reshaped,rejected
//@ entry c10_any reach=reshaped,rejected
//@ entry c10_exact fp=ieee reach=exact
//@ entry c10_huge reach=huge
//@ bounds quick: c10_any: one component any int, the others from a list of eight, -3 to 2^30; c10_history: 3 (4) size changes in a row among 7 shapes; shapes up to 3x3x2 before and after, and pairs among 9x5x3, 1x33x1, 18x1x2, 4x7x5, 5x7x4, 20x7x1, 300x1x1, 1x1x300, 1x300x1; c10_exact: any IEEE double of magnitude 1e-200 to 1e200; c10_huge: 7 shapes of 67600 to 138000 elements, one of them symbolic
//@ bounds thorough: shapes up to 4x4x3 before and after
#include "mx.h"
static Shape big(int k) { static const Shape s[] = {{20, 7, 1}, {9, 5, 3}, {4, 7, 5}, {1, 33, 1}, {18, 1, 2}, {5, 7, 4}, {300, 1, 1}, {1, 1, 300}, {1, 300, 1}}; return s[k]; }
ENTRY(c10_resize) {
  int N = 3, K = 2, w = sym_dim("wide", 0, 8); Shape a_, b_; if (w) { a_ = big(w); b_ = big(sym_dim("to", 0, 8)); } else { int X = sym_dim("X", 0, N), Y = sym_dim("Y", 1, N), Z = sym_dim("Z", 1, K), P = sym_dim("P", 0, N), Q = sym_dim("Q", 1, N), S = sym_dim("S", 1, K); a_ = {X, Y, Z}; b_ = {P, Q, S}; } int X = a_.X, Y = a_.Y, Z = a_.Z, P = b_.X, Q = b_.Y, S = b_.Z; bool form = sym_fork(sym_bool("form"));
  Ref<double> a = symRef<double>("a", X, Y, Z); SimpleMatrix<double> A = toMatrix(a);
  if (form) A.resize(P, Q, S); else A.resize(dim3(P, Q, S));
  sym_assert(A.dim() == dim3(P, Q, S) && A.size() == (size_t)(P * Q * S), "a resized matrix has the new size");
  long n = 0; for (auto it = A.begin(); it != A.end(); ++it) n++; sym_assert(n == P * Q * S, "a resized matrix has that many elements");
  for (long i = 0; i < n; i++) { double d = A[i]; if (i < X * Y * Z) sym_close(d, a.v[i], "resizing keeps the leading elements in storage order"); else sym_assert(d == 0, "new elements are zero"); }
  sym_assert(!rejects([&] { A = std::vector<double>(n); }) && rejects([&] { A = std::vector<double>(n + 1); }), "the storage matches the size");
  if (P * Q * S > X * Y * Z) sym_reach("grown"); else sym_reach("shrunk");
}
ENTRY(c10_history) { // several size changes in a row
  Ref<double> a = symRef<double>("a", 2, 3, 2); SimpleMatrix<double> A = toMatrix(a); std::vector<double> now = a.v;
  for (int i = 0; i < (sym_tier() ? 4 : 3); i++) {
    static const Shape to[] = {{0, 2, 1}, {1, 1, 1}, {2, 2, 1}, {3, 1, 5}, {6, 1, 2}, {1, 4, 1}, {4, 4, 1}}; Shape t = to[sym_dim("to", 0, 6)]; size_t n = (size_t)t.X * t.Y * t.Z; bool same = n == now.size() && sym_fork(sym_bool("reshape"));
    if (same) A.reshape(t.X, t.Y, t.Z); else A.resize(t.X, t.Y, t.Z); now.resize(n, 0.0);
    sym_assert(A.dim() == dim3(t.X, t.Y, t.Z) && A.size() == n, "the size is that of the last change"); for (size_t k = 0; k < n; k++) sym_close(A[k], now[k], "elements survive while they fit, cut off ones do not come back");
    if (n) { double w = sym_double("w"); A[n - 1] = w; now[n - 1] = w; }
  }
  expectConsistent(A); sym_reach("history");
}
ENTRY(c10_reshape) {
  int N = sym_tier() ? 4 : 3, K = sym_tier() ? 3 : 2, w = sym_dim("wide", 0, 8); Shape a_, b_; if (w) { a_ = big(w); b_ = big(sym_dim("to", 0, 8)); } else { int X = sym_dim("X", 1, N), Y = sym_dim("Y", 1, N), Z = sym_dim("Z", 1, K), P = sym_dim("P", 0, N * N), Q = sym_dim("Q", 1, N), S = sym_dim("S", 1, K); a_ = {X, Y, Z}; b_ = {P, Q, S}; } int X = a_.X, Y = a_.Y, Z = a_.Z, P = b_.X, Q = b_.Y, S = b_.Z; bool form = sym_fork(sym_bool("form"));
  Ref<double> a = symRef<double>("a", X, Y, Z); SimpleMatrix<double> A = toMatrix(a);
  bool rej = rejects([&] { if (form) A.reshape(P, Q, S); else A.reshape(dim3(P, Q, S)); });
  sym_assert(rej == (P * Q * S != X * Y * Z), "reshaping needs the same number of elements");
  sym_assert(A.size() == a.v.size(), "reshaping keeps the number of elements");
  for (size_t i = 0; i < a.v.size(); i++) sym_close(A[i], a.v[i], "reshaping keeps every element in storage order");
  if (rej) { sym_assert(A.dim() == dim3(X, Y, Z), "a rejected reshape changes nothing"); sym_reach("rejected"); }
  else { sym_assert(A.dim() == dim3(P, Q, S), "a reshaped matrix has the new shape"); for (int z = 0, i = 0; z < S; z++) for (int y = 0; y < Q; y++) for (int x = 0; x < P; x++) sym_close(A(x, y, z), a.v[i++], "elements keep their order"); sym_reach("reshaped"); }
}
ENTRY(c10_any) { // sizes of any magnitude and sign
  static const int list[] = {1, 4, 0, 2, -1, -3, 65536, 1 << 30}; static const Shape from[] = {{4, 4, 1}, {2, 3, 2}, {0, 2, 1}, {1, 1, 1}}; int b = list[sym_dim("b", 0, 7)], c = list[sym_dim("c", 0, 7)], at = sym_dim("at", 0, 2), x = sym_int("x", -2147483647 - 1, 2147483647); sym_assume((long)b * c <= (1l << 31)); Shape s = from[sym_dim("from", 0, 3)]; dim3 d = at == 0 ? dim3(x, b, c) : at == 1 ? dim3(b, x, c) : dim3(b, c, x), was(s.X, s.Y, s.Z); SimpleMatrix<double> A(was, 1.0); for (size_t i = 0; i < A.size(); i++) A[i] = i; size_t n = A.size();
  bool ok = (x >= 0) & (b >= 0) & (c >= 0) & ((long)x * ((long)b * c) == (long)n), rej = rejects([&] { A.reshape(d); });
  sym_assert(rej == !ok, "reshaping needs the same number of elements"); sym_assert(A.size() == n, "reshaping keeps the number of elements"); for (size_t i = 0; i < n; i++) sym_assert(A[i] == i, "reshaping keeps every element in storage order"); sym_assert(A.dim() == (rej ? was : d), "the size is the one asked for, or as it was"); sym_reach(rej ? "rejected" : "reshaped");
}
ENTRY(c10_exact) { // kept elements keep every bit
  int at = sym_dim("at", 0, 3), how = sym_dim("how", 0, 1); double v = fullDouble("v"); SimpleMatrix<double> m(dim3(2, 2, 1), 1.0); m[at] = v; if (how) m.reshape(dim3(1, 4, 1)); else m.resize(dim3(3, 2, 1)); sym_assert(m[at] == v, "a kept element is exact"); sym_reach("exact");
}
ENTRY(c10_huge) { // more elements than 16 bits can count, before or after
  HUGE_SHAPE; int n = X * Y * Z, k = hugePos(n), how = sym_dim("how", 0, 3); double v = sym_double("v"); SimpleMatrix<double> A(dim3(X, Y, Z), 5.0); A[k] = v;
  if (how == 0) A.resize(X + 1, Y, Z); else if (how == 1) A.resize(dim3(2, 2, 1)); else if (how == 2) { SimpleMatrix<double> B(dim3(3, 1, 1), 5.0); B.resize(X, Y, Z); sym_assert(B.size() == (size_t)n && B[2] == 5 && B[3] == 0 && B[65536] == 0 && B[n - 1] == 0, "new elements are zero"); A.reshape(n, 1, 1); } else { sym_assert(rejects([&] { A.reshape(n - 65536, 1, 1); }) && rejects([&] { A.reshape(n + 65536, 1, 1); }), "reshaping needs the same number of elements"); A.reshape(dim3(1, n / 2, 2)); }
  size_t m = how == 0 ? (size_t)(X + 1) * Y * Z : how == 1 ? 4 : n; sym_assert(A.size() == m, "number of elements"); for (int i : {0, 4463, 65535, 65536, 65537, n - 1}) if ((size_t)i < m) sym_close(A[i], i == k ? v : 5.0, "elements keep their order"); if (how == 0) sym_assert(A[n] == 0 && A[m - 1] == 0, "new elements are zero"); expectConsistent(A); sym_reach("huge");
}
