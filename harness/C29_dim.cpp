//@ nosources
//@ entry c29_arith reach=arith
//@ entry c29_flat reach=flat
//@ entry c29_next reach=next,last
//@ entry c29_copy reach=copy
//@ entry c29_large reach=large
//@ bounds quick: components symbolic over +-10^9 (arithmetic), 1..16 (flat index injectivity), one step of iteration from an arbitrary position; c29_large: 9 shapes with up to 6*10^9 elements, any coordinate
//@ bounds thorough: as quick, flat index with components up to 64
#include "mx.h"
using my_cnn::Dim;
static int big(const char *n) { return sym_int(n, -1000000000, 1000000000); }
ENTRY(c29_arith) {
  int a = big("a"), b = big("b"), c = big("c"), d = big("d"), e = big("e"), f = big("f");
  dim3 p(a, b, c), q(d, e, f), s = p + q, t = p - q;
  sym_assert(p.x == a && p.y == b && p.z == c && p.data[0] == a && p.data[1] == b && p.data[2] == c, "components by name and by position");
  sym_assert(s.x == a + d && s.y == b + e && s.z == c + f && t.x == a - d && t.y == b - e && t.z == c - f, "component-wise sum and difference");
  bool eq = (a == d) & (b == e) & (c == f);
  sym_assert((p == q) == eq && (p != q) == !eq, "equality compares every component");
  dim2 u(a, b), v(d, e), w = u + v, x = u - v;
  sym_assert(w.x == a + d && w.y == b + e && x.x == a - d && x.y == b - e, "two-component sum and difference");
  sym_assert((u == v) == ((a == d) & (b == e)) && (u != v) == !((a == d) & (b == e)), "two-component equality");
  dim3 z, k(a); sym_assert(z.x == 0 && z.y == 0 && z.z == 0, "a default size is zero");
  sym_assert(k.x == a && (k.y == a || k.y == 0), "single component"); 
  dim2 m(a); sym_assert((m == dim2(m.x, m.y)) && !(m != dim2(m.x, m.y)) && (u - v == dim2(a - d, b - e)) && (u + v == dim2(a + d, b + e)) && (m + u == dim2(m.x + a, m.y + b)), "sizes with equal components are equal, however they were made");
  m = u; m.x = d; sym_assert((m == v) == (b == e), "equality after changing a component");

  sym_reach("arith");
}
ENTRY(c29_flat) {
  int N = sym_tier() ? 64 : 16;
  int X = sym_int("X", 1, N), Y = sym_int("Y", 1, N), Z = sym_int("Z", 1, N);
  dim3 d(X, Y, Z);
  sym_assert(d.size() == (size_t)X * Y * Z, "number of elements");
  int a = sym_int("a", 0, N - 1), b = sym_int("b", 0, N - 1), c = sym_int("c", 0, N - 1);
  sym_assume((a < X) & (b < Y) & (c < Z));
  size_t i = d.getFlatIdx(dim3(a, b, c));
  sym_assert(i == (size_t)a + (size_t)X * (b + (size_t)Y * c), "flat index, first coordinate fastest");
  sym_assert(i < d.size(), "a coordinate inside the bounds has an index inside the bounds");
  sym_reach("flat");
}
ENTRY(c29_next) { // one step from an arbitrary position: induction over the whole walk
  int X = sym_int("X", 1, 1000), Y = sym_int("Y", 1, 1000), Z = sym_int("Z", 1, 1000);
  int a = sym_int("a", 0, 999), b = sym_int("b", 0, 999), c = sym_int("c", 0, 999); sym_assume((a < X) & (b < Y) & (c < Z));
  my_cnn::DimIterator<3> it(dim3(X, Y, Z), dim3(a, b, c));
  ++it;
  bool cx = a + 1 == X, cy = cx & (b + 1 == Y);
  sym_assert(it.idx.x == (cx ? 0 : a + 1) && it.idx.y == (cx ? (cy ? 0 : b + 1) : b) && it.idx.z == (cy ? c + 1 : c), "a step moves to the next coordinate, first fastest");
  sym_assert(it.dim == dim3(X, Y, Z), "a step keeps the bounds");
  my_cnn::DimIterator<3> jt(dim3(X, Y, Z), dim3(a, b, c)); auto old = jt++;
  sym_assert(old.idx == dim3(a, b, c) && jt == it, "post-increment");
  if (cy && c + 1 == Z) sym_reach("last"); else sym_reach("next");
}
ENTRY(c29_copy) {
  int a = big("a"), b = big("b"), c = big("c");
  dim3 p(a, b, c), q(p), r, s; r = p;
  sym_assert(q == p && r == p && q.x == a && r.z == c, "copies are equal");
  dim3 t(std::move(q)); s = std::move(r);
  sym_assert(t == p && s == p, "moving keeps the value");
  q = t; sym_assert(q == p, "a moved-from size can be assigned again");
  q.x = 5; sym_assert(t.x == a, "copies are independent");
  sym_reach("copy");
}
ENTRY(c29_large) { // element counts beyond 16 and 32 bits
  static const Shape s[] = {{70000, 1, 1}, {1, 70000, 1}, {1, 1, 70000}, {300, 300, 2}, {1, 300, 300}, {260, 1, 260}, {50000, 50000, 1}, {3000, 2000, 1000}, {2000000000, 2, 1}}; Shape t = s[sym_dim("shape", 0, 8)]; dim3 d(t.X, t.Y, t.Z); int a = sym_int("a", 0, t.X - 1), b = sym_int("b", 0, t.Y - 1), c = sym_int("c", 0, t.Z - 1);
  sym_assert(d.size() == (size_t)t.X * t.Y * t.Z, "number of elements"); sym_assert(d.getFlatIdx(dim3(a, b, c)) == (size_t)a + (size_t)t.X * ((size_t)b + (size_t)t.Y * c), "flat index, first coordinate fastest"); if (t.Z == 1) sym_assert(dim2(t.X, t.Y).size() == d.size() && dim2(t.X, t.Y).getFlatIdx(dim2(a, b)) == (size_t)a + (size_t)t.X * b, "flat index of two coordinates"); sym_reach("large");
}
