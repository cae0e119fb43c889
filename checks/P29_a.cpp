// P29: results do not depend on how the program was built.  The operations of P29_ops.h are compiled in several
// configurations (P29_configs.py) with the library's namespace renamed, linked into one program and fed the same inputs.
#include "fw.h"
#include "P29_shared.h"
#include <algorithm>
#include <csignal>
#include <map>
#include <unistd.h>
namespace p29 {
extern const char* const flags_of[];
extern const int n_configs;
Table& table() { static Table t; return t; }
const In& early_input() {
  static In in = [] { In i; i.u.resize(97); uint64_t s = 88172645463325252ull; for (auto& e : i.u) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; e = (double)(s >> 24) / (double)(1ull << 40); } return i; }();
  return in;
}
static std::string running;
static void crashed(int sig) { std::string m = "crash (signal " + std::to_string(sig) + ") in " + running + "\n"; (void)!write(1, m.data(), m.size()); signal(sig, SIG_DFL); raise(sig); }
void add(int config, const char* name, const char* elem, Fn fn) {   // called while the program's statics are initialised
  table().entries.push_back({config, std::string(name) + " " + elem, std::string(elem) == "float", fn});
  table().early.emplace_back();
  running = std::string(name) + " " + elem + " built with [" + flags_of[config] + "], before main()";
  for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(sig, crashed);
  Out o; fn(early_input(), o); for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(sig, SIG_DFL); table().early.back() = std::move(o);
}
}  // namespace p29
using fw::Gen;
namespace {
struct Op { std::string name; std::vector<size_t> at; };
std::vector<Op>& ops() { static std::vector<Op> v; return v; }

std::string differs(const p29::Out& a, const p29::Out& b, bool flt) {
  std::ostringstream os; os.precision(17);
  if (a.text != b.text) { os << "'" << a.text << "' and '" << b.text << "'"; return os.str(); }
  if (a.v.size() != b.v.size()) { os << a.v.size() << " and " << b.v.size() << " results"; return os.str(); }
  long double scale = 1;
  for (size_t i = 0; i < a.v.size(); ++i) {
    double x = a.v[i], y = b.v[i];
    if (fw::same(x, y)) continue;
    if (!std::isnan(x) && !std::isnan(y) && !std::isinf(x) && !std::isinf(y) && std::fabs((long double)x - y) <= (flt ? 2e-4L : 2e-10L) * std::max({scale, std::fabs((long double)x), std::fabs((long double)y)})) continue;
    os << "result " << i << ": " << x << " and " << y; return os.str();
  }
  return "";
}
void check(const Op& op, Gen& g) {
  auto& T = p29::table();
  p29::In in; in.grid = g.below(3) == 0; in.u.resize(97);
  // a period: a short one shrinks quickly and repeats values
  size_t n = g.below(4) == 0 ? 1 + g.below(12) : in.u.size();
  for (size_t i = 0; i < in.u.size(); ++i) in.u[i] = i < n ? g.unit() : in.u[i - n];
  g.note([&](auto& o) { o << (in.grid ? "small exact " : "") << "values drawn from"; for (size_t i = 0; i < n; ++i) o << ' ' << in.u[i]; });
  p29::Out first; const auto& e0 = T.entries[op.at[0]]; e0.fn(in, first);
  g.nontrivial(n > 1 && (first.v.size() > 1 || first.text.size()));
  for (size_t k = 1; k < op.at.size(); ++k) {
    const auto& e = T.entries[op.at[k]]; p29::Out o; e.fn(in, o); std::string d = differs(first, o, e.flt);
    REQUIRE(d.empty(), << op.name << " gives different results built with [" << p29::flags_of[e0.config] << "] and [" << p29::flags_of[e.config] << "]: " << d);
  }
}
// while statics are initialised (before main), as well as after
void early(const Op& op, Gen&) {
  auto& T = p29::table();
  for (size_t k : op.at) { p29::Out o; T.entries[k].fn(p29::early_input(), o); std::string d = differs(T.early[k], o, T.entries[k].flt);
    REQUIRE(d.empty(), << op.name << " [" << p29::flags_of[T.entries[k].config] << "] gives different results before main() and in it: " << d); }
}
// sub-checks are functions of a Gen only: one instance of this template each
template <int I> void one(Gen& g) { const Op& op = ops()[I]; if (g.below(40) == 39) { g.label("during static initialisation"); g.nontrivial(); early(op, g); } check(op, g); }
constexpr int MAXOPS = 256;
template <int... I> void fill(fw::PropFn* f, std::integer_sequence<int, I...>) { ((f[I] = &one<I>), ...); }
}  // namespace
namespace fw {
void before_main() {     // called first by the engine's main()
  std::map<std::string, std::vector<size_t>> m;
  auto& T = p29::table();
  for (size_t i = 0; i < T.entries.size(); ++i) m[T.entries[i].name].push_back(i);
  PropFn f[MAXOPS]; fill(f, std::make_integer_sequence<int, MAXOPS>());
  if (m.size() > MAXOPS) abort();
  for (auto& [name, at] : m) {
    std::sort(at.begin(), at.end(), [&](size_t a, size_t b) { return T.entries[a].config < T.entries[b].config; });
    if ((int)at.size() != p29::n_configs && name.find("_of_size") == std::string::npos) { fprintf(stderr, "%s: %zu configurations\n", name.c_str(), at.size()); abort(); }
    ops().push_back({name, at});
    std::string id = name; for (auto& c : id) if (c == ' ') c = '-';
    registry().push_back({id, f[ops().size() - 1], 150});
  }
}
}  // namespace fw
