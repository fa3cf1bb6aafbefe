// Native runtime of the contract language: replays a verifier counterexample on the real code, or
// searches for a failing input (small pseudo-random values) where the verifier gives none.
#define VP_NATIVE
#include "vp.hxx"
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <map>
#include <unistd.h>

static std::map<std::string, void (*)()>& registry()
{
  static std::map<std::string, void (*)()> r;
  return r;
}
VpReg::VpReg(const char* name, void (*f)()) { registry()[name] = f; }

namespace
{
bool replay = false;
std::map<std::string, std::string> table;
std::map<std::string, int> occ;
std::vector<std::pair<std::string, std::string>> used;
std::map<std::string, std::string> uf_memo;
uint64_t rng_state = 1;
sigjmp_buf env;
bool abort_expected = false;
const char* current = "";
uint64_t checks = 0;

uint64_t rnd()
{
  rng_state += 0x9E3779B97F4A7C15ull;
  uint64_t z = rng_state;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
int style = 0;
double rnd_real()
{
  switch (style)
  {
    case 0:
      return (double)(int64_t)(rnd() % 9) - 4.;
    case 1:
      return ((double)(int64_t)(rnd() % 65) - 32.) / 8.;
    case 2:
      return (double)(int64_t)(rnd() % 3) - 1.;
    default:
      return (double)(int64_t)(rnd() % 21) + 1.;
  }
}
double parse_real(const std::string& s)
{
  size_t p = s.find('/');
  if (p == std::string::npos)
    return strtod(s.c_str(), nullptr);
  return (double)(strtold(s.substr(0, p).c_str(), nullptr) / strtold(s.substr(p + 1).c_str(), nullptr));
}
std::string key(const char* name) { return std::string(name) + "#" + std::to_string(occ[name]++); }
[[noreturn]] void fail(const char* label)
{
  printf("FAIL %s :: %s\n", current, label);
  for (auto& u : used)
    printf("INPUT %s %s\n", u.first.c_str(), u.second.c_str());
  fflush(stdout);
  _exit(3);
}
void on_signal(int s)
{
  if (s == SIGABRT && abort_expected)
  {
    abort_expected = false;
    siglongjmp(env, 2);
  }
  fail(s == SIGABRT ? "no assertion fires / no abort" : s == SIGSEGV ? "memory safety (SIGSEGV)"
                                                    : s == SIGFPE    ? "arithmetic (SIGFPE)"
                                                                     : "signal");
}
std::string fmt(double d)
{
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
  uint64_t uf_salt = 0;
  bool near_mode = false;  // the search keeps most integers of a given input (its reals and functions are random)
  template <typename T>
  static T* any_array(const char* name, uint64_t n)
  {
    if (n > (1u << 19))
      siglongjmp(env, 1);
    int o = occ[std::string("arr:") + name]++;
    T* p = (T*)calloc(n, sizeof(T));  // leaked: the process is short-lived
    for (uint64_t i = 0; i < n; ++i)
    {
      std::string k = std::string("arr:") + name + ":" + std::to_string(i) + "#" + std::to_string(o);
      auto it = table.find(k);
      if (replay)
        p[i] = it == table.end() ? T(0)
               : std::is_same<T, double>::value ? (T)parse_real(it->second)
                                                : (T)strtoull(it->second.c_str(), nullptr, 10);
      else
        p[i] = std::is_same<T, double>::value ? (T)rnd_real() : (T)rnd();
      used.push_back({k, std::is_same<T, double>::value ? fmt((double)p[i]) : std::to_string((uint64_t)p[i])});
    }
    return p;
  }
}  // namespace

extern "C"
{
  double vp_real(const char* name)
  {
    std::string k = key(name);
    double v;
    auto it = table.find(k);
    if (replay && it != table.end())
      v = parse_real(it->second);
    else
      v = replay ? 0. : rnd_real();
    used.push_back({k, fmt(v)});
    return v;
  }
  uint64_t vp_u64(const char* name, uint64_t lo, uint64_t hi)
  {
    std::string k = key(name);
    uint64_t v;
    auto it = table.find(k);
    if ((replay || (near_mode && rnd() % 8)) && it != table.end())
      v = strtoull(it->second.c_str(), nullptr, 10);
    else if (replay)
      v = lo;
    else if (hi - lo == UINT64_MAX)
      v = (rnd() & 1) ? rnd() % 16 : rnd();
    else
    {
      uint64_t span = hi - lo + 1;
      if (span > 64 && (rnd() & 3))
        v = (rnd() & 1) ? lo + rnd() % 16 : hi - rnd() % 16;
      else
        v = lo + rnd() % span;
    }
    if (v < lo || v > hi)
      siglongjmp(env, 1);
    used.push_back({k, std::to_string(v)});
    return v;
  }
  uint32_t vp_u32(const char* name, uint32_t lo, uint32_t hi) { return (uint32_t)vp_u64(name, lo, hi); }
  int32_t vp_i32(const char* name, int32_t lo, int32_t hi)
  {
    std::string k = key(name);
    auto it = table.find(k);
    int64_t v;
    if ((replay || (near_mode && rnd() % 8)) && it != table.end())
    {
      uint32_t u = (uint32_t)strtoull(it->second.c_str(), nullptr, 10);
      v = (int32_t)u;
    }
    else if (replay)
      v = lo;
    else
      v = lo + (int64_t)(rnd() % ((uint64_t)((int64_t)hi - lo) + 1));
    if (v < lo || v > hi)
      siglongjmp(env, 1);
    used.push_back({k, std::to_string((uint32_t)v)});
    return (int32_t)v;
  }
  bool vp_bool(const char* name)
  {
    std::string k = key(name);
    auto it = table.find(k);
    bool v = replay || (near_mode && it != table.end() && rnd() % 8) ? (it != table.end() && it->second == "1") : (rnd() & 1);
    used.push_back({k, v ? "1" : "0"});
    return v;
  }
  void vp_assume(bool cond)
  {
    if (!cond)
      siglongjmp(env, 1);
  }
  void vp_check(bool cond, const char* label)
  {
    ++checks;
    if (!cond)
      fail(label);
  }
  static void cmp(double a, double b, double tol, const char* label)
  {
    ++checks;
    if (a == b)
      return;
    if (!(std::abs(a - b) <= tol * (1. + std::abs(a) + std::abs(b))))
    {
      printf("VALUES %.17g %.17g\n", a, b);
      fail(label);
    }
  }
  void vp_check_eq(double a, double b, const char* label) { cmp(a, b, 1e-6, label); }
  void vp_check_eqf(double a, double b, const char* label) { cmp(a, b, 2e-3, label); }
  void vp_abort_expected(bool cond, const char*) { abort_expected = cond; }
  void vp_reach(const char*) {}
  int vp_symbolic() { return 0; }
  uint32_t vp_split32(uint32_t x) { return x; }
  uint64_t vp_split64(uint64_t x) { return x; }
  static std::string ufkey(const char* name, uint64_t n, va_list ap)
  {
    std::string k = std::string("uf:") + name + ":";
    for (uint64_t i = 0; i < n; ++i)
      k += (i ? "," : "") + std::to_string(va_arg(ap, uint64_t));
    return k + "#0";
  }
  double vp_uf(const char* name, uint64_t n, ...)
  {
    va_list ap;
    va_start(ap, n);
    std::string k = ufkey(name, n, ap);
    va_end(ap);
    auto it = table.find(k);
    if (replay)
      return it != table.end() ? parse_real(it->second) : 0.;
    auto jt = uf_memo.find(k);
    if (jt == uf_memo.end())
    {
      double v = rnd_real();
      jt = uf_memo.insert({k, fmt(v)}).first;
      used.push_back({k, jt->second});
    }
    return parse_real(jt->second);
  }
  uint64_t vp_ufi(const char* name, uint64_t n, ...)
  {
    va_list ap;
    va_start(ap, n);
    std::string k = ufkey(name, n, ap);
    va_end(ap);
    auto it = table.find(k);
    if (replay)
      return it != table.end() ? strtoull(it->second.c_str(), nullptr, 10) : 0;
    auto jt = uf_memo.find(k);
    if (jt == uf_memo.end())
    {
      jt = uf_memo.insert({k, std::to_string(rnd())}).first;
      used.push_back({k, jt->second});
    }
    return strtoull(jt->second.c_str(), nullptr, 10);
  }
  // any function will do: a smooth one (rounding must not matter) with coefficients hashed from the
  // name (and, in the search, from the run)
  static double uf_real(const char* name, uint64_t n, const double* a)
  {
    auto coef = [&](uint64_t i)
    {
      uint64_t h = (1469598103934665603ull ^ (replay ? 0 : uf_salt)) + i * 0x9E3779B97F4A7C15ull + n;
      for (const char* c = name; *c; ++c)
        h = (h ^ (unsigned char)*c) * 1099511628211ull;
      h ^= h >> 29;
      h *= 0xBF58476D1CE4E5B9ull;
      return (double)((int64_t)((h >> 20) % 61) - 30) / 8.;
    };
    double v = coef(0);
    for (uint64_t i = 0; i < n; ++i)
      v += coef(2 * i + 1) * a[i] + coef(2 * i + 2) * a[i] * a[(i + 1) % n] / 8.;
    return v;
  }
  double vp_ufr(const char* name, uint64_t n, ...)
  {
    std::vector<double> a(n + 1);
    va_list ap;
    va_start(ap, n);
    for (uint64_t i = 0; i < n; ++i)
      a[i] = va_arg(ap, double);
    va_end(ap);
    return uf_real(name, n, a.data());
  }
  double vp_ufv(const char* name, uint64_t n, const double* args) { return uf_real(name, n, args); }
  double* vp_array_d(const char* name, uint64_t n) { return any_array<double>(name, n); }
  uint32_t* vp_array_u32(const char* name, uint64_t n) { return any_array<uint32_t>(name, n); }
  uint64_t* vp_array_u64(const char* name, uint64_t n) { return any_array<uint64_t>(name, n); }
  double vp_ratio(unsigned long p, unsigned long q) { return (double)p / q; }
  double vp_ite(bool c, double a, double b) { return c ? a : b; }
  double* vp_array_zero(uint64_t n) { return (double*)calloc(n, sizeof(double)); }
  void vp_array_fill(double* p, uint64_t n, double v) { std::fill(p, p + n, v); }
  double* vp_array_copy(const double* p, uint64_t n)
  {
    double* q = vp_array_zero(n);
    std::copy(p, p + n, q);
    return q;
  }
  void vp_define_eq(double, double) {}
  uint32_t vp_alternative(uint32_t) { return 0; }
  void vp_invariant(const char*, void (*)(void*, uint64_t), void*) {}
  void vp_invariant_end() {}
  double vp_loop_scalar(uint64_t) { return 0.; }
  double vp_loop_real(uint64_t, uint64_t) { return 0.; }
void vp_inv(bool, const char*) {}
  void vp_inv_eq(double, double, const char*) {}
  void vp_inv_instance_eq(double, double) {}
  void vp_dump(const char* name, double d) { printf("DUMP %s %g\n", name, d); }
  void vp_assume_regular() {}
}

// usage: prog replay FILE CONTRACT | prog search SEED COUNT SECONDS CONTRACT... | prog list
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_death() { fail("memory safety / undefined behaviour (sanitizer)"); }

#include <unistd.h>
int main(int argc, char** argv)
{
  if (__sanitizer_set_death_callback)
    __sanitizer_set_death_callback(on_death);
  std::string mode = argc > 1 ? argv[1] : "list";
  if (mode == "list")
  {
    for (auto& r : registry())
      printf("%s\n", r.first.c_str());
    return 0;
  }
  signal(SIGABRT, on_signal);
  signal(SIGSEGV, on_signal);
  signal(SIGFPE, on_signal);
  auto read_table = [](const char* name)
  {
    std::ifstream f(name);
    std::string line;
    while (std::getline(f, line))
    {
      size_t p = line.rfind(' ');
      if (line.rfind("INPUT ", 0) == 0 && p != std::string::npos && p > 6)
        table[line.substr(6, p - 6)] = line.substr(p + 1);
    }
  };
  if (mode == "replay")
  {
    replay = true;
    read_table(argv[2]);
    if (!registry().count(argv[3]))
      return 4;
    current = argv[3];
    if (sigsetjmp(env, 1) == 0)
    {
      try
      {
        registry()[argv[3]]();
      }
      catch (...)
      {
        fail("no exception escapes");
      }
      printf("PASS\n");
      return 0;
    }
    printf("REJECTED or expected abort\n");
    return 5;
  }
  // search
  if (getenv("VP_NEAR"))
  {
    near_mode = true;
    read_table(getenv("VP_NEAR"));
  }
  rng_state = strtoull(argv[2], nullptr, 10) * 7919 + 17;
  uint64_t count = strtoull(argv[3], nullptr, 10);
  double secs = strtod(argv[4], nullptr);
  uint64_t evals = 0, accepted = 0;
  for (int a = 5; a < argc; ++a)
  {
    if (!registry().count(argv[a]))
      continue;
    current = argv[a];
    static time_t t0;
    t0 = time(nullptr);
    static uint64_t i;
    for (i = 0; i < count; ++i)
    {
      if (difftime(time(nullptr), t0) > secs)
        break;
      close_range(3, ~0u, 0);  // files left open by an expected abort
      occ.clear();
      used.clear();
      uf_memo.clear();
      uf_salt = rnd();
      abort_expected = false;
      style = (int)(i % 4);
      ++evals;
      if (sigsetjmp(env, 1) == 0)
      {
        try
        {
          registry()[argv[a]]();
        }
        catch (...)
        {
          fail("no exception escapes");
        }
        ++accepted;
      }
    }
  }
  printf("SEARCHED %llu ACCEPTED %llu CHECKS %llu\n", (unsigned long long)evals, (unsigned long long)accepted,
         (unsigned long long)checks);
  return 0;
}
