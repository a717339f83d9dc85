//@ entry c30_kernel reach=kernel
//@ entry c30_full reach=full
//@ bounds quick: kernels and fully connected layers with 2 weights and 1..2 biases, any random draws
//@ bounds thorough: as quick
//@ assume a random draw is a real number from 0 to RAND_MAX other than the middle half unit; RAND_MAX is odd
#include <cmath>
#include "ly.h"
static void bounded(const SimpleMatrix<double> &m, const char *l) { double s = 0; for (double v : m) { sym_assert(v >= -1.000001 && v <= 1.000001, l); s += v * v; } sym_assert(s > 0.9999 && s < 1.0001, "initial parameters have unit norm"); }
ENTRY(c30_kernel) { sym_rand(1); int n = sym_dim("n", 1, 2); Kernel k(dim3(2 / n, 1, 1), n, 1); sym_rand(0); bounded(k.weights, "initial weights lie between -1 and 1"); bounded(k.biases, "initial biases lie between -1 and 1"); sym_reach("kernel"); }
ENTRY(c30_full) { sym_rand(1); int n = sym_dim("n", 1, 2); ConnectedLayer c(n); c.checkSize(SimpleMatrix<double>(dim3(2 / n, 1, 1), 0.0)); sym_rand(0); bounded(c.weights, "initial weights lie between -1 and 1"); bounded(c.biases, "initial biases lie between -1 and 1"); sym_reach("full"); }
