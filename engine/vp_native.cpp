// Native interpretation of the specification language: replays a counterexample, or searches at random.
//   prog <proof> replay <file>            exit 3 + "VIOLATED <obligation>" if an ensures fails
//   prog <proof> random <seed> <seconds> <outfile>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <random>
#include <limits>
#include <dlfcn.h>
#include <csignal>
#include <unistd.h>
#include <csetjmp>
#include <ctime>
#include <iostream>
#include <sstream>
#include "vp.h"

struct vp_skip {};
struct vp_fail { std::string what; };
static std::map<std::string, std::string> given;     // replayed values
static bool replaying = false;
static std::mt19937_64 rng(1);
static std::map<std::string, int> cnt;
static std::vector<std::pair<std::string, std::string> > log_;
static std::map<std::string, unsigned long> ens;
static std::vector<void*> arrs;
static std::vector<double> pool;                      // recently drawn values, to provoke coincidences
static std::vector<int64_t> ipool;
static double keep = 0;                               // probability to reuse a pooled value

static std::string uniq(const char *n)
{
   int k = cnt[n]++;
   if (k == 0) return n;
   char b[64]; snprintf(b, sizeof b, ".%d", k);
   return std::string(n) + b;
}
static double U() { return (rng() >> 11) * (1.0 / 9007199254740992.0); }

static int64_t ri(int64_t lo, int64_t hi, bool uns)
{
   uint64_t span = (uint64_t)hi - (uint64_t)lo;
   auto fit = [&](int64_t v) -> int64_t {
      bool ok = uns ? ((uint64_t)v >= (uint64_t)lo && (uint64_t)v <= (uint64_t)hi) : (v >= lo && v <= hi);
      if (ok) return v;
      return span == ~0ULL ? v : (int64_t)((uint64_t)lo + (uint64_t)v % (span + 1));
   };
   double u = U();
   if (u < 0.12) return lo + (int64_t)(span ? rng() % (span < 4 ? span + 1 : 4) : 0);
   if (u < 0.24) return hi - (int64_t)(span ? rng() % (span < 4 ? span + 1 : 4) : 0);
   if (u < 0.30) return fit((int64_t)(rng() % 5) - 2);
   if (u < 0.36 && !ipool.empty()) return fit(ipool[rng() % ipool.size()] + (int64_t)(rng() % 3) - 1);
   if (u < 0.46) { int b = rng() % 64; return fit((int64_t)((1ULL << b) + (rng() % 3) - 1)); }
   if (u < 0.56) { int b = rng() % 64; return fit((int64_t)(rng() >> b)); }
   return span == ~0ULL ? (int64_t)rng() : (int64_t)((uint64_t)lo + rng() % (span + 1));
}

static double rd(double lo, double hi)
{
   double u = U(), x;
   auto cl = [&](double v) { return v < lo ? lo : v > hi ? hi : v; };
   if (u < 0.06) return lo;
   if (u < 0.12) return hi;
   if (u < 0.18) return cl(0.0);
   if (u < 0.24) { x = lo + U() * (hi - lo); return cl(std::floor(x)); }
   if (u < 0.30) { x = lo + U() * (hi - lo); return cl(std::nextafter(std::floor(x), U() < .5 ? lo : hi)); }
   if (u < 0.36 && !pool.empty()) return cl(pool[rng() % pool.size()]);
   if (u < 0.40 && !pool.empty()) { x = pool[rng() % pool.size()]; return cl(U() < .5 ? std::nextafter(x, hi) : -x); }
   if (u < 0.46) { int e = (int)(rng() % 60) - 40; x = std::ldexp(U() - .5, e); return cl(x); }
   if (u < 0.50) { int e = (int)(rng() % 60) - 50; return cl(lo + std::ldexp(U(), e)); }
   if (u < 0.54) { int e = (int)(rng() % 60) - 50; return cl(hi - std::ldexp(U(), e)); }
   if (u < 0.60) { x = std::ldexp(1.0, (int)(rng() % 40) - 8); return cl(U() < .5 ? x : -x); }
   return cl(lo + U() * (hi - lo));
}

static std::string hx(uint64_t v) { char b[40]; snprintf(b, sizeof b, "0x%016llx", (unsigned long long)v); return b; }
static uint64_t gv(const std::string &s) { return strtoull(s.c_str(), 0, 0); }

extern "C" {
int64_t vp_i64(const char *n, int64_t lo, int64_t hi)
{
   std::string k = uniq(n);
   int64_t v;
   auto i = given.find(k);
   if (i != given.end()) v = (int64_t)gv(i->second);
   else if (replaying) v = lo > 0 ? lo : hi < 0 ? hi : 0;
   else v = ri(lo, hi, false);
   if (v < lo || v > hi) throw vp_skip();
   if (ipool.size() < 64) ipool.push_back(v); else ipool[rng() % 64] = v;
   log_.push_back(std::make_pair(k, hx(v)));
   return v;
}
uint64_t vp_u64(const char *n, uint64_t lo, uint64_t hi)
{
   std::string k = uniq(n);
   uint64_t v;
   auto i = given.find(k);
   if (i != given.end()) v = gv(i->second);
   else if (replaying) v = lo;
   else v = (uint64_t)ri((int64_t)lo, (int64_t)hi, true);
   if (v < lo || v > hi) throw vp_skip();
   if (ipool.size() < 64) ipool.push_back(v); else ipool[rng() % 64] = v;
   log_.push_back(std::make_pair(k, hx(v)));
   return v;
}
bool vp_bool(const char *n)
{
   std::string k = uniq(n);
   bool v;
   auto i = given.find(k);
   if (i != given.end()) v = gv(i->second) & 1;
   else if (replaying) v = false;
   else v = rng() & 1;
   log_.push_back(std::make_pair(k, hx(v)));
   return v;
}
static double dget(const std::string &k, double lo, double hi, bool any)
{
   double v;
   auto i = given.find(k);
   if (i != given.end()) { uint64_t b = gv(i->second); memcpy(&v, &b, 8); }
   else if (replaying) v = lo > 0 ? lo : hi < 0 ? hi : 0;
   else
   {
      if (any)
      {
         double u = U();
         if (u < 0.05) v = NAN;
         else if (u < 0.08) v = INFINITY;
         else if (u < 0.11) v = -INFINITY;
         else if (u < 0.25) { uint64_t b = rng(); memcpy(&v, &b, 8); }
         else v = rd(-1e9, 1e9);
      }
      else v = rd(lo, hi);
   }
   if (!any && !(v >= lo && v <= hi)) throw vp_skip();
   if (pool.size() < 64) pool.push_back(v); else pool[rng() % 64] = v;
   uint64_t b; memcpy(&b, &v, 8);
   log_.push_back(std::make_pair(k, hx(b)));
   return v;
}
double vp_f64(const char *n, double lo, double hi) { return dget(uniq(n), lo, hi, false); }
double vp_f64_any(const char *n) { return dget(uniq(n), -INFINITY, INFINITY, true); }
uint8_t *vp_array_u8(const char *n, int64_t len)
{
   uint8_t *p = (uint8_t*)malloc(len ? len : 1); arrs.push_back(p);
   for (int64_t i = 0; i < len; i++) { double u = U(); p[i] = u < .3 ? 0 : u < .4 ? 255 : (uint8_t)rng(); }
   return p;
}
uint32_t *vp_array_u32(const char *n, int64_t len)
{
   uint32_t *p = (uint32_t*)malloc(len ? len * 4 : 4); arrs.push_back(p);
   for (int64_t i = 0; i < len; i++) p[i] = (uint32_t)rng();
   return p;
}
uint64_t *vp_array_u64(const char *n, int64_t len)
{
   uint64_t *p = (uint64_t*)malloc(len ? len * 8 : 8); arrs.push_back(p);
   for (int64_t i = 0; i < len; i++) { double u = U(); p[i] = u < .2 ? 0 : u < .3 ? ~0ULL : rng(); }
   return p;
}
double *vp_array_f64(const char *n, int64_t len)
{
   double *p = (double*)malloc(len ? len * 8 : 8); arrs.push_back(p);
   for (int64_t i = 0; i < len; i++) p[i] = rd(-1000, 1000);
   return p;
}
void vp_assume(bool c) { if (!c) throw vp_skip(); }
void vp_ensure(bool c, const char *n) { ens[n]++; if (!c) { vp_fail f; f.what = n; throw f; } }
void vp_cover(const char *) {}
double vp_uf1(const char *n, double a)
{
   std::string s(n);
   if (s == "sin") return std::sin(a);
   if (s == "cos") return std::cos(a);
   if (s == "tan") return std::tan(a);
   if (s == "sqrt") return std::sqrt(a);
   if (s == "exp") return std::exp(a);
   if (s == "log") return std::log(a);
   if (s == "asin") return std::asin(a);
   if (s == "acos") return std::acos(a);
   if (s == "atan") return std::atan(a);
   return a;
}
double vp_uf2(const char *n, double a, double b)
{
   std::string s(n);
   if (s == "atan2") return std::atan2(a, b);
   if (s == "pow") return std::pow(a, b);
   if (s == "fmod") return std::fmod(a, b);
   return a;
}
int64_t vp_ufi(const char *n, int64_t a, int64_t b) { return a ^ (b * 0x9e3779b97f4a7c15LL); }
}

static sigjmp_buf jb;
static void onsig(int s) { siglongjmp(jb, s); }

static void dump(const char *path, const char *proof, const std::string &what)
{
   FILE *f = path && *path ? fopen(path, "w") : stdout;
   fprintf(f, "# proof %s\n# failed %s\n", proof, what.c_str());
   for (auto &p : log_) fprintf(f, "%s %s\n", p.first.c_str(), p.second.c_str());
   if (f != stdout) fclose(f);
}

extern "C" void vp_missing()
{
   fprintf(stdout, "MISSING a library function that is not linked into the native program\n");
   fflush(stdout);
   _exit(5);
}

int main(int argc, char **argv)
{
   if (argc < 3) return 2;
   std::ios_base::sync_with_stdio(false);
   std::ostringstream sink, sink2;
   std::cout.rdbuf(sink.rdbuf());
   std::cerr.rdbuf(sink2.rdbuf());
   void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
   if (!fn) { fprintf(stderr, "no proof %s\n", argv[1]); return 2; }
   for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM}) 
   {
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_NODEFER;
      sigaction(s, &sa, 0);
   }
   std::string mode = argv[2];
   const char *out = "";
   long tries = 0, skipped = 0;
   double secs = 0;
   if (mode == "replay")
   {
      replaying = true;
      FILE *f = fopen(argv[3], "r");
      if (!f) return 2;
      char a[512], b[512], line[2048];
      while (fgets(line, sizeof line, f))
         if (line[0] != '#' && sscanf(line, "%511s %511s", a, b) == 2) given[a] = b;
      fclose(f);
   }
   else
   {
      rng.seed(strtoull(argv[3], 0, 0));
      secs = atof(argv[4]);
      out = argv[5];
   }
   time_t t0 = time(0);
   struct timespec ts0; clock_gettime(CLOCK_MONOTONIC, &ts0);
   bool strict = getenv("VP_STRICT") != 0;
   volatile int lim = 0;
   for (;;)
   {
      cnt.clear(); log_.clear();
      std::string what;
      bool bad = false;
      tries++;
      int sg = sigsetjmp(jb, 1);
      if (sg == 0)
      {
         alarm(10);
         try { fn(); }
         catch (vp_skip &) { skipped++; }
         catch (vp_fail &f) { bad = true; what = f.what; }
         catch (std::exception &e) { bad = true; what = std::string("uncaught exception ") + e.what(); }
         catch (...) { bad = true; what = "uncaught exception"; }
         alarm(0);
      }
      else { bad = true; what = sg == SIGALRM ? "no termination within 10 s" : std::string("signal ") + strsignal(sg); }
      for (void *p : arrs) free(p);
      arrs.clear();
      sink.str(""); sink2.str("");
      if (bad)
      {
         fprintf(stdout, "VIOLATED %s\n", what.c_str());
         if (mode != "replay") dump(out, argv[1], what);
         fflush(stdout);
         _exit(3);
      }
      if (mode == "replay") break;
      if ((tries & 63) == 0)
      {
         struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
         if (ts.tv_sec - ts0.tv_sec + 1e-9 * (ts.tv_nsec - ts0.tv_nsec) > secs) break;
      }
      (void)lim; (void)strict; (void)t0;
   }
   unsigned long n = 0;
   for (auto &e : ens) n += e.second;
   fprintf(stdout, "OK tries=%ld skipped=%ld ensures=%lu distinct=%zu\n", tries, skipped, n, ens.size());
   fflush(stdout);
   _exit(0);
}
