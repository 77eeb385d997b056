// The simulated air between a transmitter and a receiver.
#pragma once
#include "core.h"
#include <math.h>
enum { AIR_CLEAN, AIR_NOISE, AIR_BURST, AIR_ERASE, AIR_FLIP, AIR_STRONG, AIR_FADE, AIR_N };
static const char* const AIR_NAMES[] = { "frames_clean", "frames_with_noise", "frames_with_burst", "frames_with_erasures", "frames_with_sign_flips", "frames_amplified", "frames_faded" };
inline std::vector<std::string> air_counters() { return std::vector<std::string>(AIR_NAMES, AIR_NAMES + AIR_N); }
// returns what arrives; flips: number of flipped samples (AIR_FLIP only)
inline std::vector<double> air(int kind, uint64_t seed, std::vector<double> x, int flips = 0)
{
    Rng g(seed * 77 + (uint64_t) kind); size_t n = x.size(); if (!n) return x;
    rt_count(kind);
    auto gauss = [&](double s) { double q = 0; for (int i = 0; i < 12; i++) q += g.unit(); return s * (q - 6); };
    switch (kind)
    {
    case AIR_NOISE: { double s = 0.05 + g.unit() * 1.2; for (auto& v : x) v += gauss(s); } break;
    case AIR_BURST: { size_t a = (size_t) g.below((long) n), l = 1 + (size_t) g.below(6); static const double amp[] = { 3, 30, 300, 3e4, 3e6 }; double m = amp[g.below(5)]; for (size_t i = a; i < n && i < a + l; i++) x[i] += (g.chance(50) ? m : -m) * (0.5 + g.unit()); for (auto& v : x) v += gauss(0.1); } break;
    case AIR_ERASE: { for (auto& v : x) if (g.chance(20)) v = 0; for (auto& v : x) if (v != 0) v += gauss(0.2); } break;
    case AIR_FLIP: { std::vector<size_t> i(n); for (size_t k = 0; k < n; k++) i[k] = k; for (size_t k = 0; k < n; k++) std::swap(i[k], i[(size_t) g.below((long) n)]); for (int k = 0; k < flips && k < (int) n; k++) x[i[k]] = -x[i[k]]; } break;
    case AIR_STRONG: { static const double amp[] = { 2, 10, 100, 1e4 }; double m = amp[g.below(4)]; for (auto& v : x) v = v * m + gauss(0.3); } break;
    case AIR_FADE: { double m = 1; for (auto& v : x) { if (g.chance(10)) m = g.unit(); v = v * m + gauss(0.15); } } break;
    default: break;
    }
    return x;
}
inline double ladd(double a, double b) { if (a == -INFINITY) return b; if (b == -INFINITY) return a; double m = a > b ? a : b; return m + log(exp(a - m) + exp(b - m)); }
inline void norm0(std::vector<double>& v) { double m = -INFINITY; for (double x : v) if (x > m) m = x; if (m > -INFINITY) for (double& x : v) x -= m; }
// a likelihood ratio against its reference logarithm
inline void check_ratio(const char* what, size_t k, double lr, double ref, double scale)
{
    if (lr != lr) rt_fail("not-a-number", "%s: the likelihood ratio of bit %zu is not a number", what, k);
    if (lr < 0) rt_fail("wrong-result", "%s: the likelihood ratio of bit %zu is negative (%g)", what, k, lr);
    double tol = 1e-6 * (1 + fabs(ref)) + 1e-13 * scale, lo = ref - tol, hi = ref + tol;
    double L = log(lr); bool ok = L > 705 ? hi > 690 : L < -690 ? lo < -680 : L >= lo && L <= hi;
    if (!ok) rt_fail("wrong-result", "%s: the logarithm of the likelihood ratio of bit %zu is %.12g, it should be %.12g", what, k, L, ref);
}
