#include "fw.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace fw {

static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
void Gen::reseed(uint64_t seed) { for (auto& s : s_) s = splitmix(seed); }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Gen::next64() {
  const uint64_t r = rotl(s_[1] * 5, 7) * 9, t = s_[1] << 17;
  s_[2] ^= s_[0]; s_[3] ^= s_[1]; s_[1] ^= s_[2]; s_[0] ^= s_[3];
  s_[2] ^= t; s_[3] = rotl(s_[3], 45);
  return r;
}

void Gen::echo_line(const std::string& s) { std::cout << "  " << s << std::endl; }
std::vector<Prop>& registry() { static std::vector<Prop> r; return r; }

void fail_at(const char* file, int line, const std::string& msg) {
  const char* b = std::strrchr(file, '/');
  std::ostringstream os; os << (b ? b + 1 : file) << ':' << line << ": " << msg;
  throw Fail{os.str()};
}

// returns "" on pass, else the message
static std::string run_case(const Prop& p, Gen& g) {
  try { p.fn(g); }
  catch (const Fail& f) { return f.msg.empty() ? "failed" : f.msg; }
  catch (const std::exception& e) { return std::string("unexpected exception: ") + e.what(); }
  catch (...) { return "unexpected exception (unknown type)"; }
  return "";
}

static uint64_t fnv(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
static uint64_t case_seed(uint64_t seed, const Prop& p, uint64_t i) {
  uint64_t x = seed * 0x9e3779b97f4a7c15ull ^ fnv(p.name);
  splitmix(x); x ^= i * 0xd1342543de82ef95ull; return splitmix(x);
}

static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

// Runs one choice sequence in a child.  0 pass, 1 fail, 2 crash, 3 hang.
static int run_forked(const Prop& p, const std::vector<uint64_t>& ch, int secs) {
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
    alarm(secs);
    Gen g(ch);
    _exit(run_case(p, g).empty() ? 0 : 7);
  }
  int st = 0; waitpid(pid, &st, 0);
  if (WIFEXITED(st)) { int c = WEXITSTATUS(st); return c == 0 ? 0 : c == 7 ? 1 : 2; }
  return WTERMSIG(st) == SIGALRM ? 3 : 2;
}

static std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> cur) {
  int kind = run_forked(p, cur, 10);
  if (kind == 0) return cur;
  int budget = 3000; time_t end = time(nullptr) + 40;
  auto better = [&](const std::vector<uint64_t>& c) {
    if (budget-- <= 0 || time(nullptr) >= end) return false;
    int k = run_forked(p, c, 5);
    if (k == kind) { cur = c; return true; }
    return false;
  };
  bool progress = true;
  while (progress && budget > 0 && time(nullptr) < end) {
    progress = false;
    while (!cur.empty() && cur.back() == 0) cur.pop_back();
    for (size_t n = std::max<size_t>(1, cur.size() / 2); n >= 1; n /= 2) {
      for (size_t i = 0; i + n <= cur.size();) {
        auto c = cur; c.erase(c.begin() + i, c.begin() + i + n);
        if (better(c)) progress = true; else i += n;
      }
      for (size_t i = 0; i + n <= cur.size(); i += n) {
        auto c = cur; bool z = true;
        for (size_t k = i; k < i + n; ++k) { z = z && c[k] == 0; c[k] = 0; }
        if (!z && better(c)) progress = true;
      }
    }
    for (size_t i = 0; i < cur.size(); ++i) {
      uint64_t lo = 0;
      while (cur[i] > lo) {
        auto c = cur; c[i] = lo + (cur[i] - lo) / 2;
        if (c[i] == cur[i]) break;
        if (better(c)) progress = true; else { lo = c[i] + 1; }
        if (budget <= 0 || time(nullptr) >= end) break;
      }
    }
  }
  while (!cur.empty() && cur.back() == 0) {
    auto c = cur; c.pop_back();
    if (run_forked(p, c, 5) != kind) break;
    cur = c;
  }
  return cur;
}

static const Prop* find(const std::string& n) {
  for (auto& p : registry()) if (p.name == n) return &p;
  return nullptr;
}

__attribute__((weak)) void before_main();   // a check may register sub-checks at run time

struct Shared { volatile uint64_t idx; volatile uint64_t prop; };

}  // namespace fw

using namespace fw;

#ifndef FW_FUZZER
// usage:
//   bin list
//   bin run SEED MULT WORKER NWORKERS OUTPREFIX FROM_PROP
//   bin choices SEED PROP INDEX           -> prints choices
//   bin shrink PROP < choices             -> prints choices
//   bin replay PROP < choices             -> exit 0 pass / 7 fail (crash otherwise)
int main(int argc, char** argv) {
  std::string cmd = argc > 1 ? argv[1] : "list";
  if (before_main) before_main();
  std::stable_sort(registry().begin(), registry().end(),
                   [](const Prop& a, const Prop& b) { return a.name < b.name; });
  auto& R = registry();
  if (cmd == "list") { for (auto& p : R) std::cout << p.name << " " << p.quick << "\n"; return 0; }
  if (cmd == "choices") {
    const Prop* p = find(argv[3]);
    if (!p) return 9;
    // The case may crash or hang: run it in a child that copies every choice
    // into shared memory as it is drawn.
    size_t cap = 1 << 20;
    uint64_t* sh = (uint64_t*)mmap(0, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t pid = fork();
    if (pid == 0) {
      int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
      alarm(20);
      Gen g(case_seed(strtoull(argv[2], 0, 10), *p, strtoull(argv[4], 0, 10)));
      g.sink = sh; g.sink_cap = cap;
      run_case(*p, g);
      _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    for (size_t i = 0; i < sh[0]; ++i) std::cout << sh[i + 1] << " ";
    std::cout << "\n";
    return 0;
  }
  if (cmd == "shrink" || cmd == "replay") {
    const Prop* p = find(argv[2]);
    if (!p) { std::cerr << "no sub-check " << argv[2] << "\n"; return 9; }
    std::vector<uint64_t> ch; uint64_t v;
    while (std::cin >> v) ch.push_back(v);
    if (cmd == "shrink") {
      for (auto x : shrink(*p, ch)) std::cout << x << " ";
      std::cout << "\n"; return 0;
    }
    Gen g(ch); g.verbose = true; g.echo = true;
    std::cout << "case:" << std::endl;
    std::string m = run_case(*p, g);
    if (m.empty()) { std::cout << "PASS\n"; return 0; }
    std::cout << "FAIL " << m << "\n"; return 7;
  }
  // A failure that needs the cases before it in the same process (reads of
  // uninitialised memory, for instance): repeat a worker's run up to it.
  //   bin history SEED MULT WORKER NWORKERS FROM_PROP PROP INDEX
  if (cmd == "history") {
    uint64_t seed = strtoull(argv[2], 0, 10); double mult = atof(argv[3]);
    uint64_t w = strtoull(argv[4], 0, 10), nw = strtoull(argv[5], 0, 10), idx = strtoull(argv[8], 0, 10);
    const Prop* last = find(argv[7]);
    if (!last) return 9;
    for (size_t pi = strtoull(argv[6], 0, 10); pi < R.size(); ++pi) {
      const Prop& p = R[pi];
      uint64_t n = (uint64_t)(p.quick * mult); if (n < 1) n = 1;
      for (uint64_t i = w; i < n; i += nw) {
        Gen g(case_seed(seed, p, i));
        if (&p == last && i == idx) { g.verbose = true; }
        std::string m = run_case(p, g);
        if (!m.empty() && &p == last && i <= idx) {
          std::cout << "case " << i << ", after the cases before it in the same process: " << g.log.str() << "\nFAIL " << m << "\n";
          return 7;
        }
        if (&p == last && i >= idx) return 0;
        if (!m.empty()) break;
      }
      if (&p == last) return 0;
    }
    return 0;
  }
  if (cmd == "run") {
    uint64_t seed = strtoull(argv[2], 0, 10);
    double mult = atof(argv[3]);
    uint64_t w = strtoull(argv[4], 0, 10), nw = strtoull(argv[5], 0, 10);
    std::string out = argv[6];
    size_t from = argc > 7 ? strtoull(argv[7], 0, 10) : 0;
    std::string curf = out + ".cur";
    int fd = open(curf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (ftruncate(fd, 4096)) return 9;
    Shared* sh = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    FILE* hf = fopen((out + ".hash").c_str(), from ? "ab" : "wb");
    std::ofstream js(out + ".jsonl", from ? std::ios::app : std::ios::trunc);
    for (size_t pi = from; pi < R.size(); ++pi) {
      const Prop& p = R[pi];
      uint64_t n = (uint64_t)(p.quick * mult); if (n < 1) n = 1;
      uint64_t evals = 0, nt = 0; std::string failmsg; uint64_t failidx = 0;
      std::map<std::string, uint64_t> labels;
      std::vector<std::string> samples;
      std::vector<uint64_t> failch;
      std::unordered_set<uint64_t> seen;
      sh->prop = pi;
      for (uint64_t i = w; i < n; i += nw) {
        sh->idx = i;
        Gen g(case_seed(seed, p, i));
        std::string m = run_case(p, g);
        ++evals;
        if (g.is_nontrivial()) {
          ++nt;
          uint64_t h = fnv(p.name);
          for (auto c : g.record()) { h ^= c + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; }
          seen.insert(h);
        }
        for (auto l : g.labels()) ++labels[l];
        if (samples.size() < 2 && g.is_nontrivial() && m.empty() && w < 2) {
          Gen g2(case_seed(seed, p, i)); g2.verbose = true; run_case(p, g2);
          samples.push_back(g2.log.str());
        }
        if (!m.empty()) { failmsg = m; failidx = i; failch = g.record(); break; }
      }
      for (auto h : seen) fwrite(&h, 8, 1, hf);
      fflush(hf);
      js << "{\"prop\":\"" << jesc(p.name) << "\",\"evals\":" << evals << ",\"nontrivial\":" << nt
         << ",\"labels\":{";
      bool f = true;
      for (auto& kv : labels) { js << (f ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; f = false; }
      js << "},\"samples\":[";
      for (size_t k = 0; k < samples.size(); ++k) js << (k ? "," : "") << "\"" << jesc(samples[k]) << "\"";
      js << "]";
      if (!failmsg.empty()) {
        js << ",\"fail\":\"" << jesc(failmsg) << "\",\"index\":" << failidx << ",\"choices\":[";
        for (size_t k = 0; k < failch.size(); ++k) js << (k ? "," : "") << failch[k];
        js << "]";
      }
      js << "}\n"; js.flush();
    }
    sh->prop = ~0ull;
    fclose(hf);
    return 0;
  }
  return 9;
}
#else
// libFuzzer driver (thorough tier): byte 0 selects the sub-check, the rest is
// decoded into choices.  A failing case is written as a replay to
// $FW_FUZZ_OUT before trapping.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  static bool sorted = false;
  auto& R = registry();
  if (!sorted) {
    std::stable_sort(R.begin(), R.end(), [](const Prop& a, const Prop& b) { return a.name < b.name; });
    sorted = true;
  }
  // [0]=sub-check index, [1]=number of choices, [2..]=choices; read by the
  // runner after a crash.
  static uint64_t* cur = nullptr; static const size_t cap = 1 << 16;
  if (!cur) {
    const char* o = getenv("FW_FUZZ_CUR");
    int fd = open(o ? o : "/dev/null", O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (o && fd >= 0 && ftruncate(fd, cap * 8) == 0)
      cur = (uint64_t*)mmap(0, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (!cur || cur == MAP_FAILED) cur = new uint64_t[cap];
  }
  if (n < 2) return 0;
  size_t pi = (d[0] * 256u + d[1]) % R.size();
  const Prop& p = R[pi];
  Gen g(d + 2, n - 2);
  g.sink = cur + 1; g.sink_cap = cap - 2;
  cur[0] = pi; cur[1] = 0;
  std::string m = run_case(p, g);
  if (!m.empty()) {
    std::cerr << "FUZZ FAIL " << p.name << ": " << m << "\n";
    __builtin_trap();
  }
  return 0;
}
#endif
