#include "calc_in.h"
namespace {

void c_fft(In& g, Dump& d) { fft<double> f; size_t n = (size_t) 1 << g.n(1, 5); bool row = g.g.chance(50); put(d, f.radix2(row ? g.mat(1, n) : g.mat(n, 1))); }
void c_fftm(In& g, Dump& d) { fft<double> f; put(d, f.radix2(g.mat((size_t) 1 << g.n(1, 4), g.n(2, 4)))); }
void c_dft(In& g, Dump& d) { fft<double> f; size_t n = g.n(2, 15); put(d, f.dft(g.g.chance(50) ? g.mat(1, n) : g.mat(n, 1))); put(d, f.dft(g.mat(g.n(2, 5), g.n(2, 4)))); }
void c_fftodd(In& g, Dump& d) { fft<double> f; put(d, f.radix2(g.mat(g.n(2, 6) * 2 + 1, 1))); }
void c_fftf(In& g, Dump& d) { fft<float> f; matrix<std::complex<float>> r = f.radix2(g.matf((size_t) 1 << g.n(1, 4), 1)); d.raw(r.size()); for (size_t i = 0; i < r.size(); i++) { d.num(r.get(i).real()); d.num(r.get(i).imag()); } }
void c_svd(In& g, Dump& d) { size_t c = g.n(2, 4), r = c + g.n(0, 2); matrix<float> u, s, v; d.raw((uint64_t) svd(g.matf(r, c), u, s, v)); put(d, u); put(d, s); put(d, v); }
void c_lu(In& g, Dump& d) { matrix<double> a = g.good(g.n(2, 5)); lu<double> q(a); d.raw(q.decompose()); put(d, q.get_upper()); put(d, q.get_lower()); }
void c_lup(In& g, Dump& d)
{
    size_t n = g.n(2, 5); matrix<double> a = g.good(n), b = g.mat(n, 1); lup<double> q(a);
    d.raw(q.decompose()); put(d, q.get_lu()); put(d, q.solve(b)); 
}
void c_lupalt(In& g, Dump& d) { size_t n = g.n(2, 5); matrix<double> a = g.good(n); lup<double> q(a); d.raw(q.decompose_alt()); put(d, q.get_lu()); put(d, q.get_pivot()); }
void c_linsolve(In& g, Dump& d) { size_t n = g.n(2, 5); matrix<double> a = g.good(n), b = g.mat(n, 1); put(d, linsolve(a, b)); }
void c_inv(In& g, Dump& d) { matrix<double> a = g.good(g.n(2, 5)); put(d, inv(a)); }
void c_det(In& g, Dump& d) { size_t n = g.n(1, 5); d.num(det(g.mat(n, n))); d.num(det(g.mat(n, n + 1))); }
void c_rank(In& g, Dump& d) { matrix<double> m = g.mat(g.n(2, 5), g.n(2, 5)); m.set_row(1, m.row(0)); d.raw(rank(m)); }
void c_conv(In& g, Dump& d) { size_t n = g.n(2, 8), k = g.n(2, 6); put(d, conv(g.mat(n, 1), g.mat(k, 1))); put(d, conv(g.mat(1, n), g.mat(1, k))); put(d, conv(g.mat(n, 3), g.mat(k, 1))); }
void c_filter(In& g, Dump& d)
{
    size_t n = g.n(3, 10); matrix<double> b = g.mat(g.n(2, 4), 1), a = g.mat(g.n(1, 3), 1) / 16.0; a(0) = 1;
    put(d, filter(b, a, g.mat(n, 1), g.n(0, 3))); put(d, filter(b, a, g.mat(1, n), g.n(0, 3))); put(d, filter(b, a, g.mat(n, 2), g.n(0, 3)));
}
void c_convmtx(In& g, Dump& d) { put(d, convmtx(g.mat(g.n(2, 5), 1), g.n(2, 4))); put(d, convmtx(g.mat(1, g.n(2, 5)), g.n(2, 4))); }
void c_toeplitz(In& g, Dump& d) { size_t n = g.n(2, 6); put(d, toeplitz(g.mat(n, 1))); put(d, toeplitz(g.mat(n, 1), g.mat(g.n(2, 6), 1))); }
void c_kron(In& g, Dump& d) { put(d, kron(g.mat(g.n(1, 3), g.n(1, 3)), g.mat(g.n(1, 3), g.n(1, 3)))); }
void c_updown(In& g, Dump& d) { size_t u = g.n(1, 4); matrix<double> m = g.mat(g.n(2, 5), g.n(1, 3)); put(d, upsample(m, u)); put(d, downsample(upsample(m, u), u)); put(d, upsample(g.mat(1, 5), u)); }
void c_minmax(In& g, Dump& d)
{
    matrix<double> m = g.mat(g.n(1, 5), g.n(1, 5)); put(d, min(m)); put(d, max(m)); put(d, sum(m)); put(d, mean(m)); put(d, norm(m)); put(d, susa::abs(g.matc(2, 3))); put(d, sign(m));
    put(d, log(m * m + 1.0)); put(d, round(m, 1)); put(d, round(m)); put(d, round(m / 3.0, 2));
}
void c_scalar(In& g, Dump& d)
{
    d.num(round(g.val() / 3, 2)); d.num(normcdf(g.val())); d.num(qfunc(g.val())); d.raw((uint64_t) mod(g.g.range(-40, 40), 7)); d.raw(pow(3u, (unsigned) g.n(0, 9))); d.raw((uint64_t) pow(-2, (unsigned) g.n(0, 9)));
    d.raw(log2((int) g.n(1, 5000))); d.raw(sign(g.val()));
}
void c_vecs(In& g, Dump& d) { std::vector<double> v; size_t n = g.n(2, 9); for (size_t i = 0; i < n; i++) v.push_back(g.val()); putv(d, diff(v)); d.num(sum(v)); d.num(mean(v)); d.num(var(v)); d.num(stdv(v)); }
void c_cplx(In& g, Dump& d) { matrix<cd> m = g.matc(g.n(1, 4), g.n(1, 4)); put(d, real(m)); put(d, imag(m)); put(d, mag(m)); put(d, conj(m)); put(d, to_complex(g.mat(2, 3))); put(d, sum(m)); put(d, mean(m)); }
void c_select(In& g, Dump& d)
{
    size_t n = g.n(4, 9); matrix<double> m = g.mat(n, 1); unsigned k = (unsigned) g.n(1, (long) n - 2); put(d, select_least(m, k)); put(d, select_most(m, k));
    matrix<unsigned> lim((unsigned) n - 1, 1, 0); for (unsigned i = 0; i + 1 < n; i++) lim(i) = i + 1; put(d, select_limited_least(m, lim, 2));
}
void c_sort(In& g, Dump& d) { size_t n = g.n(2, 9); matrix<int> m = g.mati(n, 1); put(d, susa::sort(m)); put(d, sort_indices(m)); matrix<double> v = g.mat(1, n); put(d, susa::sort(v)); put(d, sort_indices(v)); }
void c_find(In& g, Dump& d) { matrix<int> m = g.mati(g.n(3, 20), 1); for (size_t i = 0; i < m.size(); i++) m(i) = m(i) & 3; int t = 2; bitset b = susa::find(m, t); d.raw(b.any()); for (size_t i = 0; i <= m.size(); i++) d.raw(b.exists(i)); }
void c_dijkstra(In& g, Dump& d) { size_t n = g.n(3, 7); matrix<unsigned> w(n, n, 0); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i != j && g.g.chance(55)) w(i, j) = (unsigned) g.n(1, 9); put(d, dijkstra(w, (unsigned) g.g.below((long) n))); }
}
const Ent CALC_A[] = { { "fft", c_fft }, { "fft-columns", c_fftm }, { "dft", c_dft }, { "fft-odd-length", c_fftodd }, { "fft-float", c_fftf }, { "svd", c_svd }, { "lu", c_lu }, { "lup", c_lup }, { "lup-alt", c_lupalt }, { "linsolve", c_linsolve }, { "inv", c_inv }, { "det", c_det }, { "rank", c_rank },
    { "conv", c_conv }, { "filter", c_filter }, { "convmtx", c_convmtx }, { "toeplitz", c_toeplitz }, { "kron", c_kron }, { "up-down-sample", c_updown }, { "min-max-sum", c_minmax }, { "scalar-math", c_scalar }, { "vectors", c_vecs }, { "complex", c_cplx }, { "select", c_select },
    { "sort", c_sort }, { "find", c_find }, { "dijkstra", c_dijkstra } };
const int CALC_AN = (int) (sizeof CALC_A / sizeof CALC_A[0]);
