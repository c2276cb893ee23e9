#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <vector>
#include <string>
#include <algorithm>
struct Rnd {
    uint64_t s;
    explicit Rnd(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 5; i++) u(); }
    uint64_t u() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    double d() { return (u() >> 11) * (1.0 / 9007199254740992.0); }
    double in(double a, double b) { return a + (b - a) * d(); }
    long i(long a, long b) { return a + (long)(u() % (uint64_t)(b - a + 1)); }
    bool b() { return (u() >> 40) & 1; }
};
// the order of parallel iterations: random, or the one asked for
inline bool ORD(Rnd &r) { bool b = r.b(); const char *e = getenv("FVC_ORDER"); return e ? *e == 0x31 : b; }
static int g_fail = 0;
static long g_cases = 0;
static void FAILF(const char *f, ...) {
    if (++g_fail > 20) return;
    va_list a; va_start(a, f); printf("FAIL "); vprintf(f, a); printf("\n"); va_end(a); fflush(stdout);
}
static void BEGINF(const char *f, ...) { va_list a; va_start(a, f); printf("BEGIN "); vprintf(f, a); printf("\n"); va_end(a); fflush(stdout); }
static int DONE() { printf("CASES %ld\n", g_cases); fflush(stdout); return g_fail ? 1 : 0; }
static bool close_to(double a, double b, double tol, double scale = 1.0) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= tol * (scale + std::fabs(a) + std::fabs(b));
}
static std::string vec(const double *p, int n) { std::string r; char b[40]; for (int i = 0; i < n; i++) { snprintf(b, 40, "%s%.17g", i ? " " : "", p[i]); r += b; } return r; }
