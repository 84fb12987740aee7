// Helpers shared by the scenarios: independent observation of array contents, external owners, random values.
#pragma once
#include "sim.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <dynd/array.hpp>
#include <dynd/callable.hpp>
#include <dynd/memblock/external_memory_block.hpp>
#include <dynd/option.hpp>
#include <dynd/types/categorical_type.hpp>
#include <dynd/types/fixed_bytes_type.hpp>
#include <dynd/types/fixed_string_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>

using namespace dynd;
using namespace sim;
using std::string;

namespace dynd_sim {

// ---- canonical text of array contents --------------------------------------------------------------
// Walks type, arrmeta and data itself; does not use the library's printing, indexing or conversion code.
void put_int(std::string &o, long long v);
void put_uint(std::string &o, unsigned long long v);
void put_real(std::string &o, double v);
void put_str(std::string &o, const char *p, size_t n);
void dump_to(std::string &o, const ndt::type &tp, const char *meta, const char *data);
// the arrays may be NULL.  Runs with accesses tracked (it is a user reading the array).
std::string dump(const nd::array &a);
std::string dump_host(const nd::array &a); // untracked
std::string type_str(const ndt::type &tp); // in HOST mode

// expected texts
inline std::string I(long long v) {
  std::string o;
  put_int(o, v);
  return o;
}
inline std::string R(double v) {
  std::string o;
  put_real(o, v);
  return o;
}
inline std::string S(const std::string &s) {
  std::string o;
  put_str(o, s.data(), s.size());
  return o;
}
inline std::string B(bool b) { return b ? "T" : "F"; }
template <class V, class F> std::string L(const V &v, F f, char open = '[', char close = ']') {
  std::string o(1, open);
  bool first = true;
  for (auto &e : v) {
    if (!first)
      o += ", ";
    first = false;
    o += f(e);
  }
  return o + close;
}
inline std::string LI(const std::vector<long long> &v) {
  return L(v, [](long long x) { return I(x); });
}
inline std::string LR(const std::vector<double> &v) {
  return L(v, [](double x) { return R(x); });
}

// fails the run unless the array's contents are exactly `want`
void check_dump(const char *cls, const char *what, const nd::array &a, const std::string &want);

// ---- external owners ---------------------------------------------------------------------------------
// Counts how often the free function runs; the buffer is poisoned and released when it does.
struct External {
  char *mem = nullptr;
  size_t size = 0;
  int freed = 0;
  static void release(void *p);
};

// sets `slot` to an empty array in simulated mode (releases the reference)
inline void drop(nd::array &slot) {
  Mode m(M_SIM);
  slot = nd::array();
}
inline void drop_quiet(nd::array &slot) {
  Mode m(M_QUIET);
  slot = nd::array();
}
template <class T> T quiet(T (*f)()) {
  Mode m(M_QUIET);
  return f();
}
} // namespace dynd_sim
using namespace dynd_sim;
