// Helpers for the harnesses of the main program: its source is compiled in, its data directory is the scratch directory.
#pragma once
#include <thread>
#include <string>
#include "sym.h"
static std::string vdir() { std::string p = vf_path("q"); p.pop_back(); return p; }
#undef DATA_DIR
#define DATA_DIR vdir()
#define main repo_main
#include "main.cpp"
#undef main
#include "mx.h"
static void be(std::string &s, unsigned v) { for (int i = 3; i >= 0; i--) s.push_back((char)(v >> (8 * i))); }
// an image and a label file with n images of H x W pixels
struct Files { std::string img, lab; std::vector<std::vector<int>> px; std::vector<int> l; int H, W;
  Files(int n, int H, int W) : H(H), W(W) { be(img, 2051); be(img, n); be(img, H); be(img, W); be(lab, 2049); be(lab, n); }
  void add(std::vector<int> p, int label) { for (int b : p) img.push_back((char)b); lab.push_back((char)label); px.push_back(p); l.push_back(label); }
  void put(const std::string &i, const std::string &j) { vf_put(i.c_str(), img.data(), img.size()); vf_put(j.c_str(), lab.data(), lab.size()); } };
static std::string captured() { std::string t(vf_out_size(), ' '); if (!t.empty()) vf_out_get(&t[0]); return t; }
// position after the first occurrence of `w`; an unknown number in the text (see vs_streams.h) is one item
static size_t findAfter(const std::string &t, const std::string &w, size_t p = 0) {
  while (p + w.size() <= t.size()) { if (t[p] == 1) { p += 13; continue; } size_t k = 0; while (k < w.size() && t[p + k] == w[k]) k++; if (k == w.size()) return p + k; p++; }
  return std::string::npos;
}
