#pragma once
#include <cstddef>
// interface between the instrumented programs and the uninstrumented scheduler
struct Result {
  size_t n;
  int overflow;
  double v[4096];
};
extern "C" {
int c20_count();
const char *c20_name(int prog);
void c20_prepare(int who, int prog); // main thread, beforehand
void c20_run(int who, Result *out);  // on thread `who`
}
