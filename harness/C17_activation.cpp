//@ entry c17_forward reach=RELU,SIGMOID,LINEAR,TANGENT,LEAKY
//@ entry c17_gradient reach=RELU,SIGMOID,LINEAR,TANGENT,LEAKY
//@ entry c17_shape reach=shape
//@ entry c17_finite fp=abs reach=RELU,SIGMOID,LINEAR,TANGENT,LEAKY
//@ entry c17_slope reach=slope
//@ entry c17_wide reach=RELU,SIGMOID,LINEAR,TANGENT,LEAKY
//@ entry c17_exact fp=ieee reach=RELU,SIGMOID,LINEAR,TANGENT,LEAKY
//@ bounds quick: every activation, inputs of 1..2 by 1..2 by 1..2 elements, values any real number (c17_finite: any finite double); c17_wide: 300x1x1, 1x1x300 and 18x17x1 elements; c17_exact: IEEE doubles between 1 and 8 (exp and tanh arbitrary functions)
//@ bounds thorough: inputs up to 3x3x2
//@ assume exp and tanh are real functions with their usual algebraic identities and monotonicity; gradients of the piecewise-linear functions are judged away from the kink
#include <cmath>
#include <cstring>
#include "ly.h"
static const char *names[] = {"RELU", "SIGMOID", "LINEAR", "TANGENT", "LEAKY"};
static double F(int k, double x) { switch (k) { case 0: return x > 0 ? x : 0; case 1: return 1 / (1 + std::exp(-x)); case 2: return x; case 3: return std::tanh(x); default: return x > 0 ? x : 0.1 * x; } }
static double G(int k, double x) { switch (k) { case 0: return x > 0 ? 1 : 0; case 1: { double s = 1 / (1 + std::exp(-x)); return s * (1 - s); } case 2: return 1; case 3: { double t = std::tanh(x); return 1 - t * t; } default: return x > 0 ? 1 : 0.1; } }
ENTRY(c17_forward) {
  int N = sym_tier() ? 3 : 2; int k = sym_dim("kind", 0, 4), X = sym_dim("X", 1, N), Y = sym_dim("Y", 1, N), Z = sym_dim("Z", 1, 2); if (k == 0 || k == 4) sym_assume(X * Y * Z <= 4);
  Activation a((my_cnn::ModelActivationFunction)k); RD in = symRef<double>("in", X, Y, Z), o(X, Y, Z); for (size_t i = 0; i < in.v.size(); i++) o.v[i] = F(k, in.v[i]);
  sym_assert(a.checkSize(toMatrix(in)), "any size is accepted"); SimpleMatrix<double> R = a.propagateForward(toMatrix(in)); expectSame(R, o, "the named function of each element"); sym_reach(names[k]);
}
ENTRY(c17_gradient) {
  int N = sym_tier() ? 3 : 2; int k = sym_dim("kind", 0, 4), X = sym_dim("X", 1, N), Y = sym_dim("Y", 1, 2); 
  Activation a((my_cnn::ModelActivationFunction)k); RD in = symRef<double>("in", X, Y, 1), g = symRef<double>("g", X, Y, 1), o(X, Y, 1), d(X, Y, 1); for (size_t i = 0; i < in.v.size(); i++) { if (k == 0 || k == 4) sym_assume(in.v[i] != 0); d.v[i] = G(k, in.v[i]); o.v[i] = g.v[i] * d.v[i]; }
  SimpleMatrix<double> I = toMatrix(in), Z = a.propagateForward(toMatrix(in)); 
  expectSame(a.activationGradient(I), d, "derivative of the function at the input");
  expectSame(a.propagateBackward(I, Z, toMatrix(g), 0, false), o, "output gradient times the derivative at the input"); sym_reach(names[k]);
}
ENTRY(c17_shape) { // an activation never mixes elements: same input element, same result, wherever it sits
  int k = sym_dim("kind", 0, 4); Activation a((my_cnn::ModelActivationFunction)k); double v = sym_double("v"), u = sym_double("u");
  SimpleMatrix<double> m(dim3(2, 1, 2), v); m(1, 0, 1) = u; SimpleMatrix<double> n(dim3(1, 1, 1), v); SimpleMatrix<double> R = a.propagateForward(std::move(m)), S = a.propagateForward(std::move(n));
  sym_assert(R.dim() == dim3(2, 1, 2), "shape kept"); sym_close(R(0, 0, 0), S(0, 0, 0), "element-wise"); sym_close(R(1, 0, 0), S(0, 0, 0), "element-wise"); sym_close(R(0, 0, 1), S(0, 0, 0), "element-wise"); sym_reach("shape");
}
ENTRY(c17_finite) {
  int k = sym_dim("kind", 0, 4); double x = sym_double("x"); sym_assume(x - x == 0); Activation a((my_cnn::ModelActivationFunction)k); SimpleMatrix<double> I(dim3(1, 1, 1), x);
  SimpleMatrix<double> d = a.activationGradient(I), R = a.propagateForward(std::move(I)); double r = R(0, 0, 0), g = d(0, 0, 0);
  sym_assert(r == r && r - r == 0, "a finite input has a finite output"); sym_assert(g == g && g >= 0 && g <= 1, "a finite input has a gradient between 0 and 1");
  if (k == 0) sym_assert(r == (x > 0 ? x : 0.0), "rectifier is exact"); if (k == 1) sym_assert(r >= 0 && r <= 1, "sigmoid lies between 0 and 1"); if (k == 2) sym_assert(r == x, "linear is exact"); if (k == 3) sym_assert(r >= -1 && r <= 1, "tangent lies between -1 and 1");
  if (k == 4) sym_assert(x > 0 ? r == x : (r <= 0 && r >= x), "leaky rectifier keeps the sign and never grows");
  sym_reach(names[k]);
}
ENTRY(c17_slope) { // activations are non-decreasing, and their gradient is never negative
  int k = sym_dim("kind", 0, 4); double x = sym_double("x"), y = sym_double("y"); sym_assume(x <= y); Activation a((my_cnn::ModelActivationFunction)k); SimpleMatrix<double> m(dim3(2, 1, 1)); m(0, 0, 0) = x; m(1, 0, 0) = y; SimpleMatrix<double> d = a.activationGradient(m), R = a.propagateForward(std::move(m));
  sym_assert(R(0, 0, 0) <= R(1, 0, 0), "non-decreasing"); sym_assert(d(0, 0, 0) >= 0 && d(0, 0, 0) <= 1, "slope between 0 and 1"); sym_reach("slope");
}
ENTRY(c17_wide) { // many elements: every one is mapped, in its place
  int k = sym_dim("kind", 0, 4), s = sym_dim("shape", 0, 2); bool kink = k == 0 || k == 4; RD in = s == 0 ? RD(300, 1, 1) : s == 1 ? RD(1, 1, 300) : RD(18, 17, 1), g(in.X, in.Y, in.Z), o = in, d = in; for (size_t i = 0; i < in.v.size(); i++) { in.v[i] = k == 2 ? sym_double("in") : (double)((i * 37) % 101) - 50.5; g.v[i] = sym_double("g"); }
  if (k != 2) { double v = sym_double("v"); if (kink) sym_assume(v != 0); in.v[257] = v; } for (size_t i = 0; i < in.v.size(); i++) { o.v[i] = F(k, in.v[i]); d.v[i] = g.v[i] * G(k, in.v[i]); }
  Activation a((my_cnn::ModelActivationFunction)k); SimpleMatrix<double> Z = a.propagateForward(toMatrix(in)); expectSame(Z, o, "the named function of each element"); expectSame(a.propagateBackward(toMatrix(in), Z, toMatrix(g), 0, false), d, "output gradient times the derivative at the input"); sym_reach(names[k]);
}
ENTRY(c17_exact) { // double precision throughout, not that of something narrower
  int k = sym_dim("kind", 0, 4); bool neg = sym_fork(sym_bool("negative")); double x = posDouble("x"), g = fullDouble("g"); sym_assume(x <= 8); if (neg) x = -x; auto near = [](double a, double b) { unsigned long p, q; memcpy(&p, &a, 8); memcpy(&q, &b, 8); if (p == q) return true; double d = a - b; return a == b || (d < 1e-12 && d > -1e-12); }; Activation a((my_cnn::ModelActivationFunction)k); SimpleMatrix<double> I(dim3(1, 1, 1), x), Z = a.propagateForward(SimpleMatrix<double>(I));
  sym_assert(near(Z[0], F(k, x)), "the named function in the precision of the elements"); SimpleMatrix<double> D = a.propagateBackward(I, Z, SimpleMatrix<double>(dim3(1, 1, 1), 1.0), 0, false); sym_assert(near(D[0], G(k, x)), "the derivative in the precision of the elements"); if (k == 0 || k == 2) { D = a.propagateBackward(I, Z, SimpleMatrix<double>(dim3(1, 1, 1), g), 0, false); sym_assert(D[0] == g * G(k, x), "a gradient passes exactly where the slope is zero or one"); } sym_reach(names[k]);
}
