// Interface between the harnesses and the symbolic engine (or, natively, the replay runtime).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
int sym_int(const char *name, int lo, int hi);
unsigned char sym_byte(const char *name);
unsigned long sym_u64(const char *name);
bool sym_bool(const char *name);
double sym_double(const char *name);
float sym_float(const char *name);
double sym_double_in(const char *name, double lo, double hi);
float sym_float_in(const char *name, float lo, float hi);
int sym_fork(int v);                      // explore each feasible value separately
void sym_rand(int on);                     // rand() returns any value from here on (default: a fixed sequence)
void sym_sched(int switches);              // explore only schedules with this many deviations from run-to-block (-1: all; -1-k: one schedule, threads in turns of k steps)
void sym_assume(int c);
void sym_assert(int c, const char *label);
void sym_close(double a, double b, const char *label); // equal up to rounding
void sym_reach(const char *label);
int sym_tier();                           // 0 quick, 1 thorough
int sym_symbolic();                       // 1 under the engine, 0 in a native replay
void sym_expect_abort(int on);            // a failing assert() in the code counts as "rejected"
const char *vf_path(const char *name);    // scratch files: in memory / in a scratch directory
void vf_put(const char *path, const char *data, long n);
long vf_size(const char *path);
void vf_get(const char *path, char *data);
void vf_capture(int on);                 // keep (1) or drop (0, the default) what is printed to standard output
long vf_out_size();                        // what was kept
void vf_out_get(char *data);
void vf_budget(long n);                   // the device accepts this many more bytes (-1: no limit)
}
static inline int sym_dim(const char *n, int lo, int hi) { return sym_fork(sym_int(n, lo, hi)); }
#define ENTRY(name) extern "C" void name()
