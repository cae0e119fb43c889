#pragma once
// P29: what the differently built parts of one program exchange; nothing here depends on the library
#include <cmath>
#include <cstdint>
#include <exception>
#include <stdexcept>
#include <string>
#include <vector>
namespace p29 {
// a supply of values, the same in every configuration
struct In {
  std::vector<double> u;          // [0,1)
  bool grid = false;              // small exact values
  size_t at = 0;
  double unit() { double x = u[at % u.size()]; ++at; return x; }
  double real() { double x = unit(); return grid ? std::floor(x * 33 - 16) / 2 : x * 16 - 8; }
  double pos() { return 0.5 + unit() * 7; }
  double angle() { double x = unit(); return grid ? std::floor(x * 17 - 8) * 0.78539816339744830962 : x * 6 - 3; }
  double integer() { return std::floor(unit() * 19 - 9); }
  double nonzero() { double x = integer(); return x == 0 ? 1 : x; }
  int size(int lo, int hi) { return lo + (int)(unit() * (hi - lo + 1)); }
};
struct Out {
  std::vector<double> v;
  std::string text;
  template <class T> void num(T x) { v.push_back((double)x); }
  void mark(const std::string& s) { text += s; text += '\n'; }
};
using Fn = void (*)(In, Out&);
struct Entry { int config; std::string name; bool flt; Fn fn; };
struct Table { std::vector<Entry> entries; std::vector<Out> early; };
Table& table();
const In& early_input();
void add(int config, const char* name, const char* elem, Fn fn);

template <class F> void guarded(F f, Out& o) {
  try { f(); }
  catch (const std::invalid_argument& e) { o.mark(std::string("invalid_argument ") + e.what()); }
  catch (const std::out_of_range& e) { o.mark(std::string("out_of_range ") + e.what()); }
  catch (const std::logic_error& e) { o.mark(std::string("logic_error ") + e.what()); }
  catch (const std::runtime_error& e) { o.mark(std::string("runtime_error ") + e.what()); }
  catch (const std::exception& e) { o.mark(std::string("exception ") + e.what()); }
}
}  // namespace p29
