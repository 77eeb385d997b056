#pragma once
#include <susa.h>
#include <math.h>
#include <string.h>
#include <stdio.h>
#include "calc.h"
using namespace susa;
typedef std::complex<double> cd;
namespace {
struct In
{
    Rng g; bool wild; explicit In(uint64_t s) : g(s), wild(g.chance(12)) {}
    // some inputs hold numbers that are not finite, overflow when squared or vanish
    double val()
    {
        static const double W[] = { INFINITY, -INFINITY, NAN, 1e200, -1e200, 1.7e308, -1e155, 1e-200, 5e-324, -0.0, 3e38, -1e25, 4294967296.5, 2147483648.0 };
        double v = (double) g.range(-64, 64) / 8.0;
        return wild && g.chance(20) ? W[g.below(14)] : v;
    }
    double pos() { return (double) g.range(1, 64) / 8.0; }
    size_t n(long a, long b) { return (size_t) g.range(a, b); }
    // every fourth matrix has a structure that random elements do not have
    template <class T, class F> matrix<T> filled(size_t r, size_t c, F f)
    {
        matrix<T> m(r, c, T(0)); if (m.size() != r * c) return m;
        long s = g.chance(25) ? g.range(0, 9) : -1; T q = f(); size_t a = g.below((long) r), b = g.below((long) c);
        for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++)
        {
            T v = f();
            switch (s) { case 0: v = q; break; case 1: v = i == j ? v : T(0); break; case 2: v = i <= j ? v : T(0); break; case 3: v = i >= j ? v : T(0); break; case 4: v = i == a ? T(0) : v; break; case 5: v = j == b ? T(0) : v; break; case 6: v = i ? m(0, j) : v; break; case 7: v = j ? m(i, 0) : v; break; case 8: v = g.chance(70) ? T(0) : v; break; case 9: v = T(i == j ? 1 : 0); break; default: break; }
            m(i, j) = v;
        }
        return m;
    }
    matrix<double> mat(size_t r, size_t c) { return filled<double>(r, c, [&] { return val(); }); }
    matrix<float> matf(size_t r, size_t c) { return filled<float>(r, c, [&] { return (float) val(); }); }
    matrix<int> mati(size_t r, size_t c) { return filled<int>(r, c, [&] { return (int) g.range(-50, 50); }); }
    matrix<cd> matc(size_t r, size_t c) { matrix<cd> m(r, c, cd(0, 0)); for (size_t i = 0; i < r * c; i++) { double a = val(), b = val(); m(i) = cd(a, b); } return m; }
    matrix<uint8_t> bits(size_t r) { matrix<uint8_t> m(r, 1, 0); for (size_t i = 0; i < r; i++) m(i) = (uint8_t) g.below(2); return m; }
    // diagonally dominant
    matrix<double> good(size_t k) { matrix<double> m = mat(k, k); for (size_t i = 0; i < k; i++) m(i, i) = m(i, i) + 40.0 * (double) (1 + i); return m; }
};
template <class T> void put1(Dump& d, const T& v) { d.num((double) v); }
template <> void put1(Dump& d, const cd& v) { d.num(v.real()); d.num(v.imag()); }
template <class T, class A> void put(Dump& d, const matrix<T, A>& m)
{
    d.raw(m.no_rows()); d.raw(m.no_cols()); d.raw(m.size());
    for (size_t i = 0; i < m.size(); i++) put1<T>(d, m.get(i));
}
template <class T> void putv(Dump& d, const std::vector<T>& v) { d.raw(v.size()); for (auto& x : v) put1<T>(d, x); }
void puts_(Dump& d, const std::string& s) { d.str(s.c_str(), s.size()); }

}
typedef void (*Fn)(In&, Dump&);
struct Ent { const char* name; Fn f; };
extern const Ent CALC_A[], CALC_B[], SHARED_E[]; extern const int CALC_AN, CALC_BN, SHARED_N;
