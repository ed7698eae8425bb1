// Harness runtime shared by all checks: RNG, tracking allocator, capturing logger,
// violation / coverage reporting. Cases are numbered; a case is reproduced by (seed, index).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <algorithm>
#include "spvgentwo/Allocator.h"
#include "spvgentwo/Logger.h"
#include "spvgentwo/Reader.h"
#include "spvgentwo/Writer.h"

namespace hx {
using u32 = uint32_t; using u64 = uint64_t; using i32 = int32_t; using i64 = int64_t;

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u32 u() { return (u32)(next() >> 16); }
  u32 below(u32 n) { return n ? (u32)((next() >> 11) % n) : 0; }
  u32 range(u32 a, u32 b) { return a + below(b - a + 1); } // inclusive
  bool chance(u32 num, u32 den) { return below(den) < num; }
  bool coin() { return next() & (1ull << 40); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below((u32)v.size())]; }
};

u64 fnv(const void* p, size_t n, u64 h = 0xcbf29ce484222325ull);
inline u64 fnv(const std::string& s, u64 h = 0xcbf29ce484222325ull) { return fnv(s.data(), s.size(), h); }
inline u64 fnv(const std::vector<u32>& v, u64 h = 0xcbf29ce484222325ull) { return fnv(v.data(), v.size() * 4, h); }

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---- reporting
void violation(const std::string& key, const std::string& detail); // key identifies the failing input / call site
void count(const char* name, u64 n = 1);
inline void count(const std::string& n, u64 k = 1) { count(n.c_str(), k); }
void distinct(u64 hash);           // a distinct non-trivial case was observed
void sample(const std::string& s); // a few are kept
void evaluated(u64 n = 1);
[[noreturn]] void harness_error(const std::string& why);
const std::string& tier();
bool thorough();
u64 base_seed();
bool verbose();

// ---- what each harness provides
struct Info { const char* id; const char* rule; u64 quick; u64 thorough; };
extern const Info g_info;
void init();                 // once per process
void run_case(u64 index, Rng& rng);
void finish();               // once, at the end of a shard

// ---- tracking allocator: conservation of blocks, sizes; optional failure injection and poisoning
class TrackAlloc : public spvgentwo::IAllocator {
public:
  struct Blk { size_t size; unsigned align; u64 serial; };
  std::unordered_map<void*, Blk> live;
  u64 allocs = 0, frees = 0, bytes = 0, failed = 0;
  u64 fail_at = 0;        // fail the n-th allocation (1 based) and, if fail_all, all later ones
  bool fail_all = false;
  int poison = 0xCD;      // fill pattern of fresh memory, -1: leave
  bool recycle = false;   // hand out the most recently released block of a size again (stale pointers meet new objects)
  std::unordered_map<size_t, std::vector<void*>> pool;
  unsigned pad = 0;       // extra bytes before requesting (address variation)
  std::vector<std::string> errors;
  size_t limit = size_t(1) << 31;
  void* allocate(spvgentwo::sgt_size_t n, unsigned align) override;
  void deallocate(void* p, spvgentwo::sgt_size_t n) override;
  ~TrackAlloc() override;
  // "" when balanced
  std::string imbalance() const;
};

class Log : public spvgentwo::ILogger {
public:
  Log() : spvgentwo::ILogger(&cb) {}
  unsigned errors = 0, warnings = 0, infos = 0;
  std::string last, all;
  void clear() { errors = warnings = infos = 0; last.clear(); all.clear(); }
  static void cb(spvgentwo::ILogger* self, spvgentwo::LogLevel level, const char* f, ...);
};

struct VecReader : spvgentwo::IReader {
  const std::vector<u32>& w; size_t pos = 0;
  explicit VecReader(const std::vector<u32>& v) : w(v) {}
  bool get(unsigned int& o) override { if (pos >= w.size()) return false; o = w[pos++]; return true; }
};
struct VecWriter : spvgentwo::IWriter {
  std::vector<u32> w; size_t fail_at = ~size_t(0);
  bool put(unsigned int v) override { if (w.size() >= fail_at) return false; w.push_back(v); return true; }
  virtual ~VecWriter() = default;
};
std::string hexwords(const std::vector<u32>& w, size_t maxw = 64);
}
