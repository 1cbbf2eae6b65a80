// native runtime: main <entry> <model-file> [k=v ...]; exit 1 if an assertion of the harness fails
#include "h.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <string>
#include <unistd.h>
static std::map<std::string, unsigned __int128> model;
static std::map<std::string, uint64_t> par;
static std::map<std::string, unsigned> ctr;
static int failed = 0;
static uint64_t rs = 0x9E3779B97F4A7C15ull;
static bool fill_random = false;
static bool rnd_mode();
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
// two-phase runs: in phase 1 every value is a function of the phase seed (as in the executor)
#include <csetjmp>
#include <vector>
static bool phase1 = false;
static uint64_t phase_seed = 0;
static jmp_buf phase_end;
static std::vector<std::pair<uint64_t, void*>> hmem;
static size_t hnext = 0;
static int phases = 0;
static bool rnd_mode() { return phase1 || fill_random; }
// value of variable n[i] in a random run: a function of the seed, the name and the index
static uint64_t rv(const char* n, uint64_t i)
{
  uint64_t h = (phase1 ? 0x9E3779B97F4A7C15ull ^ (phase_seed * 0xBF58476D1CE4E5B9ull + 1) : rs) ^ (i + 1) * 0x9E3779B97F4A7C15ull;
  for (; *n; n++) h = (h ^ (uint8_t)*n) * 0x100000001B3ull;
  for (int k = 0; k < 3; k++) h = (h ^ (h >> 31)) * 0xBF58476D1CE4E5B9ull;
  return h ^ (h >> 29);
}
static bool get(const char* n, uint64_t i, unsigned __int128& v)
{
  if (phase1) return false;
  auto it = model.find(std::string(n) + "[" + std::to_string(i) + "]");
  if (it == model.end()) return false;
  v = it->second;
  return true;
}
// the system random device: its k-th output is the variable rd[k]
#include <random>
static uint64_t rd_count = 0;
extern "C" uint64_t h_sym(const char*, uint64_t, uint64_t);
std::random_device::result_type std::random_device::_M_getval()
{
  unsigned __int128 v;
  uint64_t k = rd_count++;
  return ::get("rd", k, v) ? (uint32_t)v : (uint32_t)::rv("rd", k);
}
extern "C" {
uint64_t h_nat_reads() { return rd_count; }
uint64_t h_sym(const char* n, uint64_t i, uint64_t bits)
{
  unsigned __int128 v;
  if (!get(n, i, v)) v = rnd_mode() ? rv(n, i) : 0;
  return bits >= 64 ? (uint64_t)v : (uint64_t)v & ((1ull << bits) - 1);
}
int64_t h_rng(const char* n, uint64_t i, int64_t lo, int64_t hi)
{
  unsigned __int128 v;
  if (!get(n, i, v)) {
    if (!rnd_mode()) return lo > 0 || hi < 0 ? lo : 0;
    uint64_t r = rv(n, i), c = rv(n, i + 77777) % 16; // extremes more often
    return c == 0 ? lo : c == 1 ? hi : lo + (int64_t)(hi - lo == -1 ? r : r % (uint64_t)(hi - lo + 1));
  }
  unsigned w = 1;
  if (lo >= 0) { while (w < 64 && ((__int128)1 << w) <= hi) w++; }
  else { while (w < 64 && (((__int128)1 << (w - 1)) <= hi || -((__int128)1 << (w - 1)) > lo)) w++; }
  uint64_t u = (uint64_t)v;
  if (lo < 0 && w < 64 && ((u >> (w - 1)) & 1)) u |= ~0ull << w;
  return (int64_t)u;
}
uint16_t h_zq(const char* n, uint64_t i)
{
  unsigned __int128 v;
  if (!get(n, i, v)) return rnd_mode() ? rv(n, i) % 12289 : 0;
  return (uint16_t)v;
}
double h_fsym(const char* n, uint64_t i)
{
  unsigned __int128 v;
  if (!get(n, i, v)) return rnd_mode() ? (double)(int64_t)(rv(n, i) % 2001) - 1000.0 : 0.0;
  uint64_t u = (uint64_t)v;
  double d;
  memcpy(&d, &u, 8);
  return d;
}
double h_funi(const char* n, uint64_t i, double lo, double hi)
{
  unsigned __int128 v;
  if (get(n, i, v)) {
    uint64_t u = (uint64_t)v;
    double d;
    memcpy(&d, &u, 8);
    return d < lo ? lo : d > hi ? hi : d;
  }
  if (!rnd_mode()) return lo <= 0 && hi >= 0 ? 0.0 : lo;
  uint64_t c = rv(n, i + 77777) % 16;
  if (c == 0) return lo;
  if (c == 1) return hi;
  double d = lo + (hi - lo) * ((double)(rv(n, i) >> 11) * 0x1p-53);
  return d < lo ? lo : d > hi ? hi : d;
}
void h_bytes(const char* n, void* p, uint64_t len)
{
  for (uint64_t i = 0; i < len; i++) ((uint8_t*)p)[i] = (uint8_t)h_sym(n, i, 8);
}
void* h_alloc(uint64_t n)
{
  size_t k = hnext++;
  if (!phase1 && k < hmem.size() && hmem[k].first == n) {
    memset(hmem[k].second, 0xA5, n);
    return hmem[k].second;
  }
  void* p = malloc(n ? n : 1);
  if (phase1) hmem.push_back({ n, p });
  return p;
}
void h_assume(bool c)
{
  if (!c && phase1) longjmp(phase_end, 1);
  if (!c) { if (!failed) { printf("ASSUME-FAILED\n"); fflush(stdout); _exit(3); } _exit(1); }
}
void h_check(bool c, const char* m, uint64_t i)
{
  if (phase1) return;
  if (!c) { printf("FAILED %s[%llu]\n", m, (unsigned long long)i); failed = 1; }
}
void h_feq(double a, double b, const char* m, uint64_t i)
{
  if (phase1) return;
  double tol = 1e-8 * (1 + std::fabs(a) + std::fabs(b));
  if (!(std::fabs(a - b) <= tol)) { printf("FAILED %s[%llu]: %.17g vs %.17g\n", m, (unsigned long long)i, a, b); failed = 1; }
}
void h_zeq(uint16_t a, uint16_t b, const char* m, uint64_t i)
{
  if (phase1) return;
  if (a != b) { printf("FAILED %s[%llu]: %u vs %u\n", m, (unsigned long long)i, a, b); failed = 1; }
}
uint64_t h_isym(const char* n, uint64_t i) { return (uint64_t)h_rng(n, i, -1000, 1000); }
void h_ieq(uint64_t a, uint64_t b, const char* m, uint64_t i)
{
  if (phase1) return;
  if (a != b) { printf("FAILED %s[%llu]\n", m, (unsigned long long)i); failed = 1; }
}
void h_iout(const char*, uint64_t, uint64_t);
uint64_t h_choose(const char* n, uint64_t k)
{
  if (phase1) return rv((std::string("choose:") + n).c_str(), ctr[n]++) % k;
  auto it = model.find(std::string(n) + "@" + std::to_string(ctr[n]++));
  if (it == model.end()) return rnd_mode() ? rnd() % k : 0;
  return (uint64_t)it->second;
}
uint64_t h_conc(uint64_t v) { return v; }
uint64_t h_param(const char* n, uint64_t d)
{
  auto it = par.find(n);
  return it == par.end() ? d : it->second;
}
void h_cover(const char*) {}
bool h_symbolic() { return false; }
void h_stop() { if (phase1) longjmp(phase_end, 1); fflush(stdout); _exit(failed); }
void h_out(const char*, uint64_t, uint64_t) {}
void h_fout(const char*, uint64_t, double) {}
void h_iout(const char*, uint64_t, uint64_t) {}
double h_fopq(const char* n, uint64_t i) { return h_fsym(n, i); }
void h_log(const char*, uint64_t) {}
}
// mutable globals of the harness: "offset size" lines
struct range { uint8_t* p; size_t n; };
static std::vector<range> hglob;
static std::vector<uint8_t> hsave;
__attribute__((no_sanitize("address", "undefined"))) static void copy(bool save)
{
  size_t k = 0;
  for (auto& r : hglob)
    for (size_t i = 0; i < r.n; i++, k++) {
      volatile uint8_t* q = r.p + i;
      if (save) hsave[k] = *q;
      else *q = hsave[k];
    }
}
static void load_ranges(const char* file)
{
  Dl_info di;
  dladdr((void*)&h_nat_reads, &di);
  FILE* f = fopen(file, "r");
  if (!f) return;
  unsigned long long o, n;
  size_t tot = 0;
  while (fscanf(f, "%llx %llx", &o, &n) == 2) hglob.push_back({ (uint8_t*)di.dli_fbase + o, (size_t)n }), tot += n;
  fclose(f);
  hsave.resize(tot);
}
int main(int argc, char** argv)
{
  // model file: lines "name value"
  FILE* f = fopen(argv[2], "r");
  if (f) {
    char nm[512], v[128];
    while (fscanf(f, "%511s %127s", nm, v) == 2) {
      unsigned __int128 x = 0;
      for (char* p = v; *p; p++) if (*p >= '0' && *p <= '9') x = x * 10 + (*p - '0');
      model[nm] = x;
    }
    fclose(f);
  }
  for (int i = 3; i < argc; i++) {
    std::string a = argv[i];
    if (a.rfind("--random=", 0) == 0) { fill_random = true; rs ^= strtoull(a.c_str() + 9, 0, 0) * 0xBF58476D1CE4E5B9ull + 1; for (int k = 0; k < 16; k++) rnd(); continue; }
    size_t e = a.find('=');
    if (a.rfind("--phase=", 0) == 0) { phases = atoi(a.c_str() + 8); continue; }
    if (a.rfind("--ranges=", 0) == 0) { load_ranges(a.c_str() + 9); continue; }
    par[a.substr(0, e)] = strtoull(a.c_str() + e + 1, 0, 0);
  }
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { printf("no entry %s\n", argv[1]); return 4; }
  if (phases) copy(true);
  for (volatile int r = 0; r < phases; r = r + 1) {
    phase1 = true;
    phase_seed = r + 1;
    hnext = 0;
    hmem.clear();
    if (!setjmp(phase_end)) fn();
    phase1 = false;
    copy(false);
    ctr.clear();
    rd_count = 0;
    failed = 0;
    hnext = 0;
  }
  fn();
  fflush(stdout);
  return failed;
}
