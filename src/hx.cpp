#include <ctime>
#include "hx.h"
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/resource.h>

namespace hx {
static FILE* g_out = nullptr;
static std::string g_tier = "quick";
static u64 g_seed = 1, g_case = 0;
static std::map<std::string, u64> g_counters;
static std::set<u64> g_distinct;
static std::vector<std::string> g_samples;
static u64 g_eval = 0; static u64 g_viol = 0; static std::map<std::string, u64> g_violkeys;
static bool g_verbose = false;
static volatile u64* g_status = nullptr; static u64 g_statusbuf[4];

u64 fnv(const void* p, size_t n, u64 h) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; } return h; }
std::string fmt(const char* f, ...) {
  va_list a; va_start(a, f); va_list b; va_copy(b, a); int n = vsnprintf(nullptr, 0, f, a); va_end(a);
  std::string s((size_t)(n < 0 ? 0 : n), 0); if (n > 0) vsnprintf(&s[0], (size_t)n + 1, f, b); va_end(b); return s;
}
static std::string esc(const std::string& s, size_t maxn) {
  std::string o; for (unsigned char c : s) { if (o.size() > maxn) { o += "..."; break; } if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c < 32 || c > 126) o += fmt("\\x%02x", c); else o += (char)c; } return o;
}
void violation(const std::string& key, const std::string& detail) {
  ++g_viol; u64& n = g_violkeys[key];
  if (++n <= 3 && g_out) { fprintf(g_out, "V\t%s\t%llu\t%s\n", esc(key, 300).c_str(), (unsigned long long)g_case, esc(detail, 6000).c_str()); fflush(g_out); }
  if (g_verbose) fprintf(stderr, "VIOL %s case %llu\n%s\n", key.c_str(), (unsigned long long)g_case, detail.c_str());
}
void count(const char* name, u64 n) { g_counters[name] += n; }
void distinct(u64 h) { g_distinct.insert(h); }
void sample(const std::string& s) { if (g_samples.size() < 3) g_samples.push_back(s); }
void evaluated(u64 n) { g_eval += n; }
void harness_error(const std::string& why) { if (g_out) { fprintf(g_out, "E\t%s\n", esc(why, 2000).c_str()); fflush(g_out); } fprintf(stderr, "HARNESS-ERROR %s\n", why.c_str()); _exit(97); }
const std::string& tier() { return g_tier; }
bool thorough() { return g_tier == "thorough"; }
u64 base_seed() { return g_seed; }
bool verbose() { return g_verbose; }

void* TrackAlloc::allocate(spvgentwo::sgt_size_t n, unsigned align) {
  ++allocs;
  if (fail_at && (allocs == fail_at || (fail_all && allocs > fail_at))) { ++failed; return nullptr; }
  if (n > limit) { ++failed; return nullptr; }
  void* p = nullptr; if (recycle) if (auto it = pool.find(n); it != pool.end() && !it->second.empty()) { p = it->second.back(); it->second.pop_back(); }
  if (!p) p = malloc(n ? n : 1); if (!p) return nullptr;
  if (poison >= 0) memset(p, poison, n);
  live[p] = {n, align, allocs}; bytes += n; return p;
}
void TrackAlloc::deallocate(void* p, spvgentwo::sgt_size_t n) {
  if (p == nullptr) { ++frees; return; }
  auto it = live.find(p);
  if (it == live.end()) { if (errors.size() < 16) errors.push_back(fmt("released a block (%llu bytes) this allocator does not own or that was released before", (unsigned long long)n)); return; }
  if (n != 0 && it->second.size != n && errors.size() < 16) errors.push_back(fmt("block of %llu bytes released with size %llu", (unsigned long long)it->second.size, (unsigned long long)n));
  ++frees; bytes -= it->second.size; size_t sz = it->second.size; live.erase(it); if (recycle) { memset(p, 0xDD, sz); pool[sz].push_back(p); } else free(p);
}
TrackAlloc::~TrackAlloc() { for (auto& b : live) free(b.first); for (auto& v : pool) for (void* p : v.second) free(p); }
std::string TrackAlloc::imbalance() const {
  std::string s; for (auto& e : errors) s += e + "; ";
  if (!live.empty()) { u64 m = ~0ull; size_t sz = 0; for (auto& b : live) if (b.second.serial < m) { m = b.second.serial; sz = b.second.size; }
    s += fmt("%zu blocks outstanding (first: %zu bytes)", live.size(), sz); }
  return s;
}
void Log::cb(spvgentwo::ILogger* self, spvgentwo::LogLevel level, const char* f, ...) {
  Log* l = static_cast<Log*>(self); char buf[2048]; va_list a; va_start(a, f); vsnprintf(buf, sizeof buf, f, a); va_end(a);
  if (level == spvgentwo::LogLevel::Error || level == spvgentwo::LogLevel::Fatal) { ++l->errors; l->last = buf; if (l->all.size() < 4000) { l->all += buf; l->all += " | "; } }
  else if (level == spvgentwo::LogLevel::Warning) { ++l->warnings; if (l->all.size() < 4000) { l->all += "W:"; l->all += buf; l->all += " | "; } } else ++l->infos;
  if (g_verbose) fprintf(stderr, "[log %u] %s\n", (unsigned)level, buf);
}
std::string hexwords(const std::vector<u32>& w, size_t maxw) { std::string s; for (size_t i = 0; i < w.size() && i < maxw; ++i) s += fmt("%08x ", w[i]); if (w.size() > maxw) s += "..."; return s; }

static void on_alarm(int) { static const char m[] = "\nHARNESS-HANG per-case CPU limit reached\n"; (void)!write(2, m, sizeof m - 1); abort(); }
static void dump() {
  if (!g_out) return;
  fprintf(g_out, "N\t%llu\t%llu\n", (unsigned long long)g_eval, (unsigned long long)g_viol);
  for (auto& c : g_counters) fprintf(g_out, "C\t%s\t%llu\n", esc(c.first, 200).c_str(), (unsigned long long)c.second);
  for (auto& k : g_violkeys) fprintf(g_out, "K\t%s\t%llu\n", esc(k.first, 300).c_str(), (unsigned long long)k.second);
  for (auto& s : g_samples) fprintf(g_out, "S\t%s\n", esc(s, 1500).c_str());
  for (u64 h : g_distinct) fprintf(g_out, "H\t%016llx\n", (unsigned long long)h);
  fflush(g_out);
}
}
using namespace hx;
// usage: prog --out F --status F --tier T --seed S --start I --end N --stride K   |  --info  | --case I -v
int main(int argc, char** argv) {
  u64 start = 0, end = ~0ull, stride = 1, cpu = 20; std::string out, status; bool info = false;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--out") out = nx(); else if (a == "--status") status = nx(); else if (a == "--tier") g_tier = nx();
    else if (a == "--seed") g_seed = strtoull(nx().c_str(), 0, 10); else if (a == "--start") start = strtoull(nx().c_str(), 0, 10);
    else if (a == "--end") end = strtoull(nx().c_str(), 0, 10); else if (a == "--stride") stride = strtoull(nx().c_str(), 0, 10);
    else if (a == "--cpu") cpu = strtoull(nx().c_str(), 0, 10);
    else if (a == "--info") info = true; else if (a == "-v") g_verbose = true;
    else if (a == "--case") { start = strtoull(nx().c_str(), 0, 10); end = start + 1; } }
  u64 total = thorough() ? g_info.thorough : g_info.quick;
  if (info) { printf("%s\n%llu\n%llu\n%s\n", g_info.id, (unsigned long long)g_info.quick, (unsigned long long)g_info.thorough, g_info.rule); return 0; }
  if (end > total && end == ~0ull) end = total;
  if (!out.empty()) { g_out = fopen(out.c_str(), "w"); if (!g_out) { fprintf(stderr, "cannot write %s\n", out.c_str()); return 97; } }
  g_status = g_statusbuf;
  if (!status.empty()) { int fd = open(status.c_str(), O_RDWR | O_CREAT, 0644); if (fd < 0 || ftruncate(fd, 64) != 0) return 97; void* m = mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m == MAP_FAILED) return 97; g_status = (u64*)m; close(fd); }
  signal(SIGVTALRM, on_alarm);
  g_status[0] = ~0ull; 
  const char* dl = getenv("VERIF_DEADLINE"); const time_t deadline = dl && !out.empty() ? (time_t)strtoll(dl, 0, 10) : 0; // seconds since the epoch: stop exploring there
  init();
  for (u64 i = start; i < end; i += stride) {
    if (deadline && i != start && time(nullptr) >= deadline) { count("shards_stopped_at_the_time_limit"); break; }
    g_case = i; g_status[0] = i;
    itimerval t{}; t.it_value.tv_sec = (time_t)cpu; setitimer(ITIMER_VIRTUAL, &t, nullptr);
    Rng rng(fnv(g_info.id, strlen(g_info.id)) ^ (g_seed * 0x9E3779B97F4A7C15ull) ^ (i * 0xD1342543DE82EF95ull));
    u64 before = g_eval; run_case(i, rng); if (g_eval == before) ++g_eval;
    if ((i / stride) % 64 == 63 && g_out) fflush(g_out);
  }
  itimerval t{}; setitimer(ITIMER_VIRTUAL, &t, nullptr);
  finish(); g_status[0] = ~1ull;
  dump(); if (g_out) { fprintf(g_out, "D\n"); fclose(g_out); }
  else { for (auto& c : g_counters) printf("%s=%llu ", c.first.c_str(), (unsigned long long)c.second); printf("\neval=%llu distinct=%zu viol=%llu\n", (unsigned long long)g_eval, g_distinct.size(), (unsigned long long)g_viol); for (auto& k : g_violkeys) printf("  %6llu %s\n", (unsigned long long)k.second, k.first.c_str()); }
  return 0;
}
