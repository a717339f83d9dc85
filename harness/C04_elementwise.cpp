//@ entry c04_matmat reach=+,-,*,/,<,<=,>,>=,==,!=
//@ entry c04_scalar reach=+,-,*,/,<,<=,>,>=,==,!=
//@ entry c04_compound reach=+=,-=,*=,/=
//@ entry c04_compound_scalar reach=+=,-=,*=,/=
//@ entry c04_int fp=real reach=int
//@ entry c04_whole fp=real reach=whole
//@ entry c04_mismatch reach=ok,mismatch
//@ entry c04_unary reach=abs,exp,apply,modify
//@ entry c04_chain reach=lvalues,temporaries,views
//@ entry c04_exact fp=ieee reach=exact
//@ entry c04_huge reach=huge
//@ bounds quick: shapes up to 2x2x2, 9x5x3, 300x1x1 and 2x1x140, all operators, double, int, float and mixed element types; c04_exact: IEEE doubles, 2x1x1, every operator with both operands any double of magnitude 1e-200 to 1e200, exp and apply for any double between -2 and 2; c04_huge: 1x70000x1 and 2x260x130, one element symbolic
//@ bounds thorough: shapes up to 3x3x2; the huge entry with 7 shapes
#include <cmath>
#include "mx.h"
static int NN() { return sym_tier() ? 3 : 2; }
// every small shape, and one large one
static Shape shape() { int w = sym_dim("wide", 0, 3); if (w == 1) return {9, 5, 3}; if (w == 2) return {300, 1, 1}; if (w == 3) return {2, 1, 140}; int X = sym_dim("X", 1, NN()), Y = sym_dim("Y", 1, NN()), Z = sym_dim("Z", 1, 2); return {X, Y, Z}; }
#define SHAPE Shape S_ = shape(); int X = S_.X, Y = S_.Y, Z = S_.Z
// Divisors are assumed non-zero: the property is about values, not about IEEE infinities.
static void nonzero(Ref<double> &r) { for (double d : r.v) sym_assume((d >= 0.001) | (d <= -0.001)); }
template <class M, class F> void cmp(const M &m, int X, int Y, int Z, F f, const char *l) {
  sym_assert(m.dim().x == X && m.dim().y == Y && m.dim().z == Z, "the result has the operands' size");
  for (int z = 0; z < Z; z++) for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) { sym_close((double)m(dim3(x, y, z)), (double)f(x, y, z), l); sym_close((double)m((uint32_t)x, (uint32_t)y, (uint32_t)z), (double)f(x, y, z), l); }
  sym_reach(l);
}
ENTRY(c04_matmat) {
  SHAPE; int op = sym_dim("op", 0, 9);
  Ref<double> a = symRef<double>("a", X, Y, Z), b = symRef<double>("b", X, Y, Z);
  if (op == 3) nonzero(b);
  SimpleMatrix<double> A = toMatrix(a), B = toMatrix(b);
#define OP(n, o) if (op == n) cmp(A o B, X, Y, Z, [&](int x, int y, int z) { return a.at(x, y, z) o b.at(x, y, z); }, #o);
  OP(0, +) OP(1, -) OP(2, *) OP(3, /) OP(4, <) OP(5, <=) OP(6, >) OP(7, >=) OP(8, ==) OP(9, !=)
#undef OP
  expectSame(A, a, "operands are not changed"); expectSame(B, b, "operands are not changed");
}
ENTRY(c04_scalar) {
  SHAPE; int op = sym_dim("op", 0, 9); bool left = sym_fork(sym_bool("left"));
  Ref<double> a = symRef<double>("a", X, Y, Z); double s = sym_double("s");
  if (op == 3) { if (left) nonzero(a); else sym_assume((s >= 0.001) | (s <= -0.001)); }
  SimpleMatrix<double> A = toMatrix(a);
#define OP(n, o) if (op == n) { if (left) cmp(s o A, X, Y, Z, [&](int x, int y, int z) { return s o a.at(x, y, z); }, #o); else cmp(A o s, X, Y, Z, [&](int x, int y, int z) { return a.at(x, y, z) o s; }, #o); }
  OP(0, +) OP(1, -) OP(2, *) OP(3, /) OP(4, <) OP(5, <=) OP(6, >) OP(7, >=) OP(8, ==) OP(9, !=)
#undef OP
  expectSame(A, a, "operands are not changed");
}
ENTRY(c04_compound) {
  SHAPE; int op = sym_dim("op", 0, 3), how = sym_dim("how", 0, 2);
  Ref<double> a = symRef<double>("a", X, Y, Z), b = symRef<double>("b", X, Y, Z); if (op == 3) nonzero(b);
  SimpleMatrix<double> A = toMatrix(a), B = toMatrix(b); Ref<double> w = a;
  EACH(a, x, y, z) { double p = a.at(x, y, z), q = b.at(x, y, z); if (how == 1) q = q + q; w.at(x, y, z) = op == 0 ? p + q : op == 1 ? p - q : op == 2 ? p * q : p / q; }
#define OP(n, o) if (op == n) { if (how == 0) A o B; else if (how == 1) A o B + B; else { auto v = A.subMatView(dim3(0, 0, 0), dim3(X, Y, Z)); v o B; } sym_reach(#o); }
  OP(0, +=) OP(1, -=) OP(2, *=) OP(3, /=)
#undef OP
  expectSame(A, w, "compound assignment updates every element once"); expectSame(B, b, "the right operand is not changed");
}
ENTRY(c04_compound_scalar) {
  SHAPE; int op = sym_dim("op", 0, 3); bool view = sym_fork(sym_bool("view"));
  Ref<double> a = symRef<double>("a", X, Y, Z); double s = sym_double("s"); if (op == 3) sym_assume((s >= 0.001) | (s <= -0.001));
  SimpleMatrix<double> A = toMatrix(a); Ref<double> w = a;
  // through a view of one layer, or the whole matrix
  for (int z = 0; z < (view ? 1 : Z); z++) for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) { double p = a.at(x, y, z); w.at(x, y, z) = op == 0 ? p + s : op == 1 ? p - s : op == 2 ? p * s : p / s; }
#define OP(n, o) if (op == n) { if (view) A.slice(0) o s; else A o s; sym_reach(#o); }
  OP(0, +=) OP(1, -=) OP(2, *=) OP(3, /=)
#undef OP
  expectSame(A, w, "compound assignment by a scalar updates every element once");
}
ENTRY(c04_int) { // machine integers, mixed element types
  int X = sym_dim("X", 1, 2), Y = sym_dim("Y", 1, 2), op = sym_dim("op", 0, 5);
  Ref<int> a = symRef<int>("a", X, Y, 1), b = symRef<int>("b", X, Y, 1); Ref<double> d = symRef<double>("d", X, Y, 1);
  SimpleMatrix<int> A = toMatrix(a), B = toMatrix(b); SimpleMatrix<double> D = toMatrix(d);
  SimpleMatrix<int> R; SimpleMatrix<double> F; SimpleMatrix<bool> G;
  if (op == 0) R = A + B; else if (op == 1) R = A - B; else if (op == 2) { F = D + A; } else if (op == 3) { F = A - D; } else if (op == 4) { F = A * 0.5; } else R = A - 7;
  EACH(a, x, y, z) {
    int p = a.at(x, y, z), q = b.at(x, y, z); double e = d.at(x, y, z);
    if (op == 0) sym_assert(R(x, y, z) == p + q, "integer sum"); else if (op == 1) sym_assert(R(x, y, z) == p - q, "integer difference");
    else if (op == 2) sym_close(F(x, y, z), e + p, "mixed sum uses the wider type"); else if (op == 3) sym_close(F(x, y, z), p - e, "mixed difference uses the wider type");
    else if (op == 4) sym_close(F(x, y, z), p * 0.5, "integer matrix times a fraction"); else sym_assert(R(x, y, z) == p - 7, "integer scalar difference");
    (void)q;
  }
  auto eq = A == B; auto lt = A < B; auto ge = A >= 3;
  EACH(a, x, y, z) { sym_assert((bool)eq(dim3(x, y, z)) == (a.at(x, y, z) == b.at(x, y, z)), "integer equality"); sym_assert((bool)lt(dim3(x, y, z)) == (a.at(x, y, z) < b.at(x, y, z)), "integer order"); sym_assert((bool)ge(dim3(x, y, z)) == (a.at(x, y, z) >= 3), "integer comparison with a scalar"); }
  sym_reach("int");
}
ENTRY(c04_whole) { // products, quotients and in-place forms of machine integers, and bytes next to integers
  int kind = sym_dim("kind", 0, 9); Ref<int> a(1, 2, 1), b(1, 2, 1), k(1, 2, 1); for (int i = 0; i < 2; i++) a.v[i] = sym_int("a", -100, 100), b.v[i] = sym_int("b", -100, 100), k.v[i] = sym_int("k", 0, 255); SimpleMatrix<int> A = toMatrix(a), B = toMatrix(b), R; SimpleMatrix<unsigned char> K(dim3(1, 2, 1)); for (int i = 0; i < 2; i++) K[i] = (unsigned char)k.v[i]; int s = sym_int("s", -100, 100);
  if (kind == 1 || kind == 5 || kind == 7) { for (int e : b.v) sym_assume(e != 0); sym_assume(s != 0); }
  if (kind == 0) R = A * B; else if (kind == 1) R = A / B; else if (kind == 2) R = A * s; else if (kind == 3) R = s - A; else if (kind == 4) { R = A; R *= B; } else if (kind == 5) { R = A; R /= B; } else if (kind == 6) { R = A; R -= s; } else if (kind == 7) R = A / s; else if (kind == 8) R = K - 128; else R = K + A;
  sym_assert(R.dim() == dim3(1, 2, 1), "size of an integer result");
  for (int i = 0; i < 2; i++) { int p = a.v[i], q = b.v[i], u = k.v[i], w = kind == 0 || kind == 4 ? p * q : kind == 1 || kind == 5 ? p / q : kind == 2 ? p * s : kind == 3 ? s - p : kind == 6 ? p - s : kind == 7 ? p / s : kind == 8 ? u - 128 : u + p; sym_assert(R[i] == w, "integer operation"); }
  expectSame(B, b, "operands unchanged"); sym_reach("whole");
}
ENTRY(c04_mismatch) { // operands of different size are rejected, and nothing is written
  int X = sym_dim("X", 1, 2), Y = sym_dim("Y", 1, 2), Z = sym_dim("Z", 1, 2), P = sym_dim("P", 1, 2), Q = sym_dim("Q", 1, 2), S = sym_dim("S", 1, 2), op = sym_dim("op", 0, 17);
  bool same = X == P && Y == Q && Z == S;
  Ref<double> a = symRef<double>("a", X, Y, Z); Ref<double> b(P, Q, S); for (auto &e : b.v) e = 3;
  SimpleMatrix<double> A = toMatrix(a), B = toMatrix(b);
  auto e = A * 2.0;
  bool rej = rejects([&] {
    switch (op) {
      case 0: { auto r = A + B; break; } case 1: { auto r = A - B; break; } case 2: { auto r = A * B; break; } case 3: { auto r = A / B; break; }
      case 4: { auto r = A < B; break; } case 5: { auto r = A <= B; break; } case 6: { auto r = A > B; break; } case 7: { auto r = A >= B; break; } case 8: { auto r = A == B; break; } case 9: { auto r = A != B; break; }
      case 10: A += B; break; case 11: A -= B; break; case 12: A *= B; break; case 13: A /= B; break;
      case 14: { auto r = e + B; break; } case 15: { auto r = (A + A) - (B + B); break; }
      case 16: { auto v = A.subMatView(dim3(0, 0, 0), dim3(X, Y, Z)); v += B; break; } default: { auto r = A + B.subMatView(dim3(0, 0, 0), dim3(P, Q, S)); break; }
    } });
  sym_assert(rej == !same, "operands of different sizes are rejected, equal sizes accepted");
  if (!same) { expectSame(A, a, "a rejected operation changes nothing"); sym_reach("mismatch"); } else sym_reach("ok");
}
ENTRY(c04_unary) {
  SHAPE; int op = sym_dim("op", 0, 6);
  if (X > 4) { X = 5; Y = 1; Z = 1; } Ref<double> a = symRefIn<double>("a", X, Y, Z, -4.0, 4.0); SimpleMatrix<double> A = toMatrix(a);
  if (op == 0) cmp(my_cnn::abs(A), X, Y, Z, [&](int x, int y, int z) { double d = a.at(x, y, z); return d < 0 ? -d : d; }, "abs");
  else if (op == 1) { SimpleMatrix<double> R = A.abs(); cmp(R, X, Y, Z, [&](int x, int y, int z) { double d = a.at(x, y, z); return d < 0 ? -d : d; }, "abs"); }
  else if (op == 2) cmp(my_cnn::exp(A), X, Y, Z, [&](int x, int y, int z) { return std::exp(a.at(x, y, z)); }, "exp");
  else if (op > 3) { // in place: each element once, and only those of the region
    SimpleMatrix<double> M = A; int calls = 0; auto f = [&calls](double d) { calls++; return d * d - 1; }; int from = op == 6 ? X - 1 : 0; if (op == 4) my_cnn::modify(M, f); else { auto v = M.subMatView(dim3(from, 0, Z - 1), dim3(1, Y, 1)); my_cnn::modify(v, f); }
    cmp(M, X, Y, Z, [&](int x, int y, int z) { double d = a.at(x, y, z); return op == 4 || (x == from && z == Z - 1) ? d * d - 1 : d; }, "modify in place"); sym_assert(calls == (op == 4 ? X * Y * Z : Y), "the function is applied once to each element"); sym_reach("modify");
  }
  else cmp(my_cnn::apply(A, [](double d) { return d * d - 1; }), X, Y, Z, [&](int x, int y, int z) { double d = a.at(x, y, z); return d * d - 1; }, "apply");
  expectSame(A, a, "operands are not changed");
}
static SimpleMatrix<double> mk(const Ref<double> &r) { return toMatrix(r); }
ENTRY(c04_chain) { // nested expressions over lvalues, temporaries and views
  SHAPE; int how = sym_dim("how", 0, 2);
  Ref<double> a = symRef<double>("a", X, Y, Z), b = symRef<double>("b", X, Y, Z), c = symRef<double>("c", X, Y, Z); double s = sym_double("s");
  SimpleMatrix<double> A = toMatrix(a), B = toMatrix(b), C = toMatrix(c), R;
  if (how == 0) { R = (A + B) * C - s * A; sym_reach("lvalues"); }
  else if (how == 1) { auto e = (mk(a) + mk(b)) * mk(c) - s * mk(a); R = e; sym_reach("temporaries"); }
  else { const SimpleMatrix<double> &ca = A; dim3 o(0, 0, 0), d(X, Y, Z); R = (ca.subMatView(o, d) + B.subMatView(o, d)) * C - s * ca.subMatView(o, d); sym_reach("views"); }
  sym_assert(R.dim() == dim3(X, Y, Z), "the result has the operands' size");
  EACH(a, x, y, z) sym_close(R(x, y, z), (a.at(x, y, z) + b.at(x, y, z)) * c.at(x, y, z) - s * a.at(x, y, z), "nested expressions evaluate element by element");
}
ENTRY(c04_exact) { // IEEE arithmetic of the element type, no rounding to anything narrower
  int op = sym_dim("op", 0, 5), at = sym_dim("at", 0, 1); double u = posDouble("u"), v = fullDouble("v"); SimpleMatrix<double> A(dim3(2, 1, 1), 2.0), B(dim3(2, 1, 1), 2.0), R; A[at] = u; B[at] = v;
  double want = op == 0 ? u + v : op == 1 ? u - v : op == 2 || op == 4 ? u * v : op == 3 ? u / v : u + v;
  if (op == 0) R = A + B; else if (op == 1) R = A - B; else if (op == 2) R = A * B; else if (op == 3) R = A / B; else if (op == 4) R = A * v; else { R = A; R += B; }
  sym_assert(R[at] == want, "the result is the operation on the two elements, to the last bit"); SimpleMatrix<double> C = my_cnn::abs(A * -1.0); sym_assert(C[at] == u && A.abs()[at] == u, "the magnitude is exact"); double w = sym_double_in("w", -2, 2); A[at] = w; SimpleMatrix<double> E = my_cnn::exp(A), F = my_cnn::apply(A, [](double d) { return d * 2; }); sym_assert(E[at] == std::exp(w), "the exponential of the element itself"); sym_assert(F[at] == w * 2, "the function of the element itself"); sym_reach("exact");
}
ENTRY(c04_huge) { // more elements than 16 bits can count
  HUGE_FEW; int n = X * Y * Z, k = fewPos(n), how = sym_dim("how", 0, 5); double v = sym_double("v"); SimpleMatrix<double> A(dim3(X, Y, Z), 5.0), B(dim3(X, Y, Z), 3.0), R; A[k] = v;
  if (how == 0) R = A + B; else if (how == 1) R = A * 2.0; else if (how == 2) { R = A; R -= B; } else if (how == 3) { R = A; R *= 4.0; } else if (how == 4) R = my_cnn::apply(A, [](double d) { return d + 1; }); else { R = B; R += A * 2.0; }
  auto f = [&](double d) { return how == 0 ? d + 3 : how == 1 ? d * 2 : how == 2 ? d - 3 : how == 3 ? d * 4 : how == 4 ? d + 1 : 3 + d * 2; };
  sym_assert(R.dim() == A.dim() && R.size() == (size_t)n, "the result has the operands' size"); for (int i : {0, 4463, 4464, 65535, 65536, 65537, n - 1}) sym_close(R[i], f(i == k ? v : 5.0), "every element, also beyond the 65536th"); sym_reach("huge");
}
