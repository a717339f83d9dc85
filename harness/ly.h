// Helpers for the layer harnesses: reference layers written from the mathematical definition.
#pragma once
#include "cnn_from_scratch/Layers/Activation.h"
#include "cnn_from_scratch/Layers/ConnectedLayer.h"
#include "cnn_from_scratch/Layers/Kernel.h"
#include "cnn_from_scratch/Layers/Pooling.h"
#include "cnn_from_scratch/Layers/Softmax.h"
#include "mx.h"
using my_cnn::Activation; using my_cnn::ConnectedLayer; using my_cnn::Kernel; using my_cnn::Pooling; using my_cnn::Softmax;
typedef Ref<double> RD;
template <class M> RD fromMatrix(const M &m) { RD r(m.dim().x, m.dim().y, m.dim().z); EACH(r, x, y, z) r.at(x, y, z) = m(dim3(x, y, z)); return r; }
// overwrite the parameters of a layer with symbolic ones (the stored matrix keeps its shape)
static inline RD setParams(SimpleMatrix<double> &m, const char *n) { RD r = symRef<double>(n, m.dim().x, m.dim().y, m.dim().z); EACH(r, x, y, z) m(x, y, z) = r.at(x, y, z); return r; }
// convolution with `n` filters of depth `depth` laid out one after another along z
static inline RD refConv(const RD &in, const RD &w, const RD &b, int n, int depth, int stride) {
  RD o((in.X - w.X) / stride + 1, (in.Y - w.Y) / stride + 1, n);
  EACH(o, x, y, f) { double s = 0; for (int c = 0; c < depth; c++) for (int q = 0; q < w.Y; q++) for (int p = 0; p < w.X; p++) s += in.at(x * stride + p, y * stride + q, c) * w.at(p, q, f * depth + c); o.at(x, y, f) = s + b.v[f]; }
  return o;
}
static inline RD refConvW(const RD &in, const RD &w, const RD &g, int n, int depth, int st = 1) {
  RD o(w.X, w.Y, w.Z);
  for (int f = 0; f < n; f++) for (int c = 0; c < depth; c++) for (int q = 0; q < w.Y; q++) for (int p = 0; p < w.X; p++) { double s = 0; for (int y = 0; y < g.Y; y++) for (int x = 0; x < g.X; x++) s += g.at(x, y, f) * in.at(x * st + p, y * st + q, c); o.at(p, q, f * depth + c) = s; }
  return o;
}
static inline RD refConvX(const RD &in, const RD &w, const RD &g, int n, int depth, int st = 1) {
  RD o(in.X, in.Y, in.Z);
  for (int f = 0; f < n; f++) for (int c = 0; c < depth; c++) for (int y = 0; y < g.Y; y++) for (int x = 0; x < g.X; x++) for (int q = 0; q < w.Y; q++) for (int p = 0; p < w.X; p++) o.at(x * st + p, y * st + q, c) += g.at(x, y, f) * w.at(p, q, f * depth + c);
  return o;
}
static inline RD refConvB(const RD &g) { RD o(g.Z, 1, 1); EACH(g, x, y, z) o.v[z] += g.at(x, y, z); return o; }
// fully connected: the input is read in storage order
static inline RD refFull(const RD &in, const RD &w, const RD &b) { RD o(w.X, 1, 1); for (int i = 0; i < w.X; i++) { double s = 0; for (int j = 0; j < w.Y; j++) s += w.at(i, j, 0) * in.v[j]; o.v[i] = s + b.v[i]; } return o; }
