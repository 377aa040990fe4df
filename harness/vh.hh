// Shared prelude of every harness: deterministic case generation, the violation log and the coverage log.
// Must be included before any ftk header (some ftk headers rely on C math names being visible).
#pragma once
#include <bits/stdc++.h>
#include <pthread.h>
#include <math.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
namespace vh {
inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
inline uint64_t hash_str(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return mix(h); }
inline uint64_t dbits(double x) { uint64_t u; if (x != x) return 12345; memcpy(&u, &x, 8); return mix(u); }
inline uint64_t hcomb(uint64_t a, uint64_t b) { return mix(a ^ (mix(b) + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2))); }
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(mix(x)) {}
  uint64_t u64() { s += 0x9e3779b97f4a7c15ULL; uint64_t x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); } // inclusive
  double real() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * real(); }
  double gauss() { double u = real() + 1e-18, v = real(); return sqrt(-2 * log(u)) * cos(6.283185307179586 * v); }
  bool coin(double p = 0.5) { return real() < p; }
  template <class C> auto& pick(C& c) { return c[below(c.size())]; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  template <class C> void shuffle(C& c) { for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[below(i)]); }
};
struct Opt { uint64_t seed = 1; bool thorough = false; int shard = 0, nshards = 1; std::string out, dir = ".", group, arg; int64_t index = -1; int rank = 0; double scale = 1; int64_t least = 1; };
inline Opt& opt() { static Opt o; return o; }
struct State { // survives a crash: mapped onto a file
  char group[128]; int64_t index; char note[1024]; int done;
};
inline State*& state() { static State* s = nullptr; return s; }
struct Log {
  std::mutex m; FILE* f = nullptr; std::map<std::string, int> nviol; std::map<std::string, uint64_t> counters; std::map<std::string, uint64_t> evals;
  std::set<uint64_t> nontrivial; std::map<std::string, int> nsamples; std::set<uint64_t> states; int total = 0;
};
inline Log& log() { static Log l; return l; }
inline std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else if (c < 127) r += c; else r += '?'; } return r; }
inline std::string strf(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char* f, ...) { va_list a, b; va_start(a, f); va_copy(b, a); int n = vsnprintf(0, 0, f, a); std::string s(n, 0); vsnprintf(&s[0], n + 1, f, b); va_end(a); va_end(b); return s; }
inline void note(const std::string& s) { if (state()) { strncpy(state()->note, s.c_str(), sizeof(state()->note) - 1); } }
// a violation: `key` names the kind (and the known-findings entry), `msg` is the witness
inline void viol(const std::string& key, const std::string& msg) {
  std::lock_guard<std::mutex> g(log().m);
  log().total++;
  if (++log().nviol[key] > 3) return;
  fprintf(log().f, "{\"t\":\"viol\",\"key\":\"%s\",\"group\":\"%s\",\"index\":%lld,\"msg\":\"%s\"}\n", jesc(key).c_str(), state()->group, (long long)state()->index, jesc(msg.substr(0, 3000)).c_str());
  fflush(log().f);
}
#define VH_CHECK(cond, key, ...) do { if (!(cond)) vh::viol(key, vh::strf(__VA_ARGS__)); } while (0)
inline void count(const std::string& k, uint64_t n = 1) { std::lock_guard<std::mutex> g(log().m); log().counters[k] += n; }
inline void seen_state(uint64_t h) { std::lock_guard<std::mutex> g(log().m); if (log().states.size() < 200000) log().states.insert(h); }
inline void sample(const std::string& g, const std::string& s) {
  std::lock_guard<std::mutex> l(log().m);
  if (++log().nsamples[g] > 2) return;
  fprintf(log().f, "{\"t\":\"sample\",\"msg\":\"%s: %s\"}\n", jesc(g).c_str(), jesc(s.substr(0, 400)).c_str());
}
// Runs nq (quick) or nt (thorough) cases. f(rng, index) returns a hash of the case (0 = trivial case).
template <class F> void group(const std::string& name, int64_t nq, int64_t nt, F f) {
  Opt& o = opt();
  if (!o.group.empty() && o.group != name) return;
  int64_t n = o.thorough ? nt : nq;
  if (o.scale != 1) n = std::min(n, std::max<int64_t>(o.least, n * o.scale)); // fewer cases under slow instrumentation
  for (int64_t i = 0; i < n; i++) {
    if (o.index >= 0 && i != o.index) continue;
    if (o.index < 0 && (int)(i % o.nshards) != o.shard) continue;
    strncpy(state()->group, name.c_str(), sizeof(state()->group) - 1); state()->index = i; state()->note[0] = 0;
    Rng r(hcomb(hcomb(o.seed, hash_str(name)), i));
    uint64_t h = 0;
    try { h = f(r, i); }
    catch (const std::exception& e) { viol("exception:" + name, std::string("exception escaped on a valid case: ") + e.what() + " note: " + state()->note); }
    catch (...) { viol("exception:" + name, std::string("unknown exception escaped on a valid case; note: ") + state()->note); }
    log().evals[name]++;
    if (h) log().nontrivial.insert(hcomb(h, hash_str(name)));
  }
}
inline void init(int argc, char** argv) {
  Opt& o = opt();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") o.seed = strtoull(v.c_str(), 0, 10); else if (k == "--tier") o.thorough = v == "thorough";
    else if (k == "--out") o.out = v; else if (k == "--dir") o.dir = v; else if (k == "--group") o.group = v; else if (k == "--index") o.index = atoll(v.c_str());
    else if (k == "--shard") o.shard = atoi(v.c_str()); else if (k == "--nshards") o.nshards = atoi(v.c_str()); else if (k == "--arg") o.arg = v;
  }
  if (const char* r = getenv("VH_SCALE")) o.scale = atof(r);
  if (const char* r = getenv("VH_LEAST")) o.least = atoi(r);
  if (const char* r = getenv("OMPI_COMM_WORLD_RANK")) o.rank = atoi(r);
  if (o.out.empty()) o.out = "/dev/null";
  std::string out = o.out + (getenv("OMPI_COMM_WORLD_RANK") && o.out != "/dev/null" ? "." + std::to_string(o.rank) : "");
  log().f = o.out == "/dev/null" ? stderr : fopen(out.c_str(), "w");
  if (!log().f) { fprintf(stderr, "cannot open %s\n", out.c_str()); _exit(3); }
  if (o.out == "/dev/null") state() = new State();
  else {
    int fd = open((out + ".state").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (ftruncate(fd, sizeof(State))) {}
    state() = (State*)mmap(0, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  }
  memset(state(), 0, sizeof(State));
}
inline int finish() {
  Log& l = log();
  for (auto& k : l.evals) fprintf(l.f, "{\"t\":\"evals\",\"group\":\"%s\",\"n\":%llu}\n", jesc(k.first).c_str(), (unsigned long long)k.second);
  for (auto& k : l.counters) fprintf(l.f, "{\"t\":\"count\",\"k\":\"%s\",\"n\":%llu}\n", jesc(k.first).c_str(), (unsigned long long)k.second);
  for (auto& k : l.nviol) fprintf(l.f, "{\"t\":\"nviol\",\"k\":\"%s\",\"n\":%d}\n", jesc(k.first).c_str(), k.second);
  fprintf(l.f, "{\"t\":\"hashes\",\"h\":["); bool first = true; for (auto h : l.nontrivial) { fprintf(l.f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
  fprintf(l.f, "]}\n{\"t\":\"states\",\"h\":["); first = true; for (auto h : l.states) { fprintf(l.f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; } fprintf(l.f, "]}\n");
  fprintf(l.f, "{\"t\":\"done\"}\n"); fflush(l.f);
  state()->done = 1;
  return 0;
}
} // namespace vh
// ftk pins its worker threads (and the calling thread) to fixed cores; on this shared box that only serialises the shards.
extern "C" __attribute__((weak)) int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) __THROWNL { return 0; }
#define VH_MAIN(body) int main(int argc, char** argv) { vh::init(argc, argv); body; return vh::finish(); }
