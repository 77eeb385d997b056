// Single library calls whose inputs are complete before the call: what a call returns when a memory request inside it fails can be judged.
#include "calc_in.h"
#include "single.h"
namespace {
using std::make_tuple;
template <class T> matrix<T> colv(In& g, size_t n) { matrix<T> m(n, 1, 0); for (size_t i = 0; i < n; i++) m(i) = (T) g.g.range(0, 40); return m; }
matrix<double> vec(In& g, size_t n) { return g.g.chance(50) ? g.mat(n, 1) : g.mat(1, n); }
void o_fft(In& g, One& o) { auto a = vec(g, (size_t) 1 << g.n(1, 5)); fft<double> f; o([&] { return f.radix2(a); }); }
void o_fftm(In& g, One& o) { auto a = g.mat((size_t) 1 << g.n(1, 4), g.n(2, 4)); fft<double> f; o([&] { return f.radix2(a); }); }
void o_dft(In& g, One& o) { auto a = vec(g, g.n(2, 9)); fft<double> f; o([&] { return f.dft(a); }); }
void o_dftm(In& g, One& o) { auto a = g.mat(g.n(2, 5), g.n(2, 4)); fft<double> f; o([&] { return f.dft(a); }); }
void o_fftlog(In& g, One& o) { matrix<double, allocator_log<double>> a(4, 2, 1.0); for (size_t i = 0; i < 8; i++) a(i) = g.val(); fft<double, allocator_log<double>> f; o([&] { return f.radix2(a); }); }
void o_conv(In& g, One& o) { matrix<double> a = vec(g, g.n(1, 6)), b = vec(g, g.n(2, 5)); bool sw = g.g.chance(50); o([&] { return sw ? conv(a, b) : conv(b, a); }); }
void o_convm(In& g, One& o) { matrix<double> a = g.mat(g.n(2, 4), g.n(2, 4)), b = vec(g, g.n(1, 4)); o([&] { return conv(a, b); }); }
void o_filter(In& g, One& o) { matrix<double> b = g.mat(g.n(1, 4), 1), a = g.mat(g.n(1, 3), 1) / 16.0, x = g.mat(g.n(1, 6), g.n(1, 3)); a(0) = 1; size_t l = g.n(0, 3); o([&] { return filter(b, a, x, l); }); }
void o_convmtx(In& g, One& o) { auto a = vec(g, g.n(2, 5)); size_t l = g.n(1, 4); o([&] { return convmtx(a, l); }); }
void o_toeplitz(In& g, One& o) { auto a = vec(g, g.n(1, 5)), b = vec(g, g.n(1, 5)); bool two = g.g.chance(50); o([&] { return two ? toeplitz(a, b) : toeplitz(a); }); }
void o_kron(In& g, One& o) { auto a = g.mat(g.n(1, 3), g.n(1, 3)), b = g.mat(g.n(1, 3), g.n(1, 3)); o([&] { return kron(a, b); }); }
void o_up(In& g, One& o) { auto a = g.mat(g.n(1, 5), g.n(1, 3)); size_t u = g.n(1, 4); o([&] { return upsample(a, u); }); }
void o_down(In& g, One& o) { auto a = g.mat(g.n(4, 9), g.n(1, 3)); size_t u = g.n(1, 4); o([&] { return downsample(a, u); }); }
void o_inv(In& g, One& o) { auto a = g.good(g.n(1, 5)); o([&] { return inv(a); }); }
void o_linsolve(In& g, One& o) { size_t n = g.n(2, 5); auto a = g.good(n), b = g.mat(n, 1); o([&] { return linsolve(a, b); }); }
void o_det(In& g, One& o) { size_t n = g.n(1, 5); auto a = g.mat(n, n); o([&] { return det(a); }); }
void o_rank(In& g, One& o) { auto a = g.mat(g.n(2, 5), g.n(2, 5)); a.set_row(1, a.row(0)); o([&] { return rank(a); }); }
void o_lu(In& g, One& o) { auto a = g.good(g.n(1, 5)); o([&] { lu<double> q(a); bool r = q.decompose(); return make_tuple(r, q.get_upper(), q.get_lower()); }); }
void o_lup(In& g, One& o) { size_t n = g.n(1, 5); auto a = g.good(n), b = g.mat(n, 1); o([&] { lup<double> q(a); bool r = q.decompose(); return make_tuple(r, q.get_lu(), r ? q.solve(b) : b); }); }
void o_lupalt(In& g, One& o) { size_t n = g.n(1, 5); auto a = g.good(n), b = g.mat(n, 1); o([&] { lup<double> q(a); bool r = q.decompose_alt(); return make_tuple(r, q.get_lu(), q.get_pivot(), r ? q.solve(b) : b); }); }
void o_lupsolve(In& g, One& o) { size_t n = g.n(2, 5); auto a = g.good(n), b = g.mat(n, 1); lup<double> q(a); q.decompose(); bool i = g.g.chance(50); o([&] { return i ? q.invert() : q.solve(b); }); }
void o_svd(In& g, One& o) { auto a = g.matf(g.n(1, 4), g.n(1, 4)); o([&] { matrix<float> u, s, v; int e = svd(a, u, s, v); return make_tuple(e == 0, u, s, v); }); }
void o_concat(In& g, One& o) { size_t r = g.n(1, 3), c = g.n(1, 3); bool h = g.g.chance(50); auto a = g.mat(r, c), b = h ? g.mat(r, g.n(1, 4)) : g.mat(g.n(1, 4), c); o([&] { return concat(a, b); }); }
void o_transpose(In& g, One& o) { auto a = g.mat(g.n(1, 4), g.n(1, 4)); o([&] { return transpose(a); }); }
void o_flip(In& g, One& o) { auto a = g.mat(g.n(1, 4), g.n(1, 4)); bool l = g.g.chance(50); o([&] { return l ? fliplr(a) : flipud(a); }); }
void o_eye(In& g, One& o) { size_t n = g.n(1, 5); o([&] { return eye<double>(n); }); }
void o_matmul(In& g, One& o) { size_t k = g.n(1, 4); auto a = g.mat(g.n(1, 4), k), b = g.mat(k, g.n(1, 4)); o([&] { return matmul(a, b); }); }
void o_stats(In& g, One& o) { auto a = g.mat(g.n(1, 5), g.n(1, 5)); int k = (int) g.n(0, 5); o([&] { return k == 0 ? sum(a) : k == 1 ? mean(a) : k == 2 ? norm(a) : k == 3 ? round(a, 1) : k == 4 ? round(a) : log(a); }); }
void o_minmax(In& g, One& o) { auto a = g.mat(g.n(1, 5), g.n(1, 5)); int k = (int) g.n(0, 1); o([&] { return k ? min(a) : max(a); }); }
void o_sign(In& g, One& o) { auto a = g.mat(g.n(1, 5), g.n(1, 5)); o([&] { return sign(a); }); }
void o_cplx(In& g, One& o) { auto a = g.matc(g.n(1, 4), g.n(1, 4)); int k = (int) g.n(0, 3); o([&] { return k == 1 ? mag(a) : k == 2 ? real(a) : imag(a); }); }
void o_conj(In& g, One& o) { auto a = g.matc(g.n(1, 4), g.n(1, 4)); int k = (int) g.n(0, 3); o([&] { return k == 0 ? conj(a) : k == 1 ? sum(a) : k == 2 ? mean(a) : a + a; }); }
void o_tocplx(In& g, One& o) { auto a = g.mat(g.n(1, 4), g.n(1, 4)); o([&] { return to_complex(a); }); }
void o_sort(In& g, One& o) { auto a = g.mati(g.n(2, 8), 1); o([&] { return susa::sort(a); }); }
void o_sorti(In& g, One& o) { auto a = vec(g, g.n(2, 8)); o([&] { return sort_indices(a); }); }
void o_select(In& g, One& o) { size_t n = g.n(4, 9); auto a = vec(g, n); unsigned k = (unsigned) g.n(1, (long) n - 2); int w = (int) g.n(0, 2); matrix<unsigned> lim(n - 1, 1, 0); for (size_t i = 0; i + 1 < n; i++) lim(i) = (unsigned) i + 1; o([&] { return w == 0 ? select_least(a, k) : w == 1 ? select_most(a, k) : select_limited_least(a, lim, k); }); }
void o_cutv(In& g, One& o) { size_t n = g.n(2, 8); auto a = vec(g, n); size_t k = g.n(1, (long) n), b = g.n(0, (long) n - 1), e = g.n((long) b, (long) n - 1); int w = (int) g.n(0, 2); o([&] { return w == 0 ? a.left(k) : w == 1 ? a.right(k) : a.mid(b, e); }); }
void o_cutm(In& g, One& o) { size_t n = g.n(2, 5); auto a = g.mat(g.n(2, 4), n); size_t k = g.n(1, (long) n), b = g.n(0, (long) n - 1), e = g.n((long) b, (long) n - 1); int w = (int) g.n(0, 6); o([&] { return w == 0 ? a.left(k) : w == 1 ? a.right(k) : w == 2 ? a.mid(b, e) : w == 3 ? a.shrink(1, b) : w == 4 ? a.row(1) : w == 5 ? a.col(b) : a.reshape(a.size(), 1); }); }
void o_arith(In& g, One& o) { size_t r = g.n(1, 4), c = g.n(1, 4); auto a = g.mat(r, c), b = g.mat(r, c); double k = g.val(); int w = (int) g.n(0, 8); o([&] { return w == 0 ? a + b : w == 1 ? a - b : w == 2 ? a * b : w == 3 ? a / (b + 40.0) : w == 4 ? a + k : w == 5 ? k - a : w == 6 ? a * k + b : w == 7 ? a / 3.0 : a - b * a + k; }); }
void o_copy(In& g, One& o) { auto a = g.mat(g.n(1, 5), g.n(1, 5)); int w = (int) g.n(0, 1); o([&] { if (w) { matrix<double> b; b = a; return b; } matrix<double> b(a); return b; }); }
void o_vecs(In& g, One& o) { auto a = g.mat(g.n(2, 5), g.n(2, 5)); int w = (int) g.n(0, 1); o([&] { return w ? a.get_row_as_vec(1) : a.get_col_as_vec(1); }); }
void o_stdv(In& g, One& o) { std::vector<double> v; size_t n = g.n(2, 7); for (size_t i = 0; i < n; i++) v.push_back(g.val()); int w = (int) g.n(0, 3); o([&] { return w == 0 ? sum(v) : w == 1 ? mean(v) : w == 2 ? var(v) : stdv(v); }); }
void o_diff(In& g, One& o) { std::vector<double> v; size_t n = g.n(2, 7); for (size_t i = 0; i < n; i++) v.push_back(g.val()); o([&] { return diff(v); }); }
void o_cast(In& g, One& o) { auto a = g.mat(g.n(1, 4), g.n(1, 4)); o([&] { matrix<int> b = a; return b; }); }
void o_castc(In& g, One& o) { auto a = g.mati(g.n(1, 4), g.n(1, 4)); o([&] { matrix<double> b = a; return b; }); }
void o_ctext(In& g, One& o) { static const char* T[] = { "[1 2;3 4]", "1.5 -2 3e1", "[7]", "1;2;3", "[1,2\n3,4]" }; std::string s = T[g.n(0, 4)]; o([&] { matrix<double> m(s); return m; }); }
void o_atext(In& g, One& o) { static const char* T[] = { "[1 2;3 4]", "1.5 -2 3e1", "[7]", "1;2;3", "[1,2\n3,4]" }; const char* s = T[g.n(0, 4)]; o([&] { matrix<double> m; m = s; return m; }); }
void o_rng(In& g, One& o) { rng r((unsigned) g.n(0, 9999)); unsigned n = (unsigned) g.n(1, 9); int w = (int) g.n(0, 2); o([&] { return w == 0 ? r.rand(n) : w == 1 ? r.randn(n) : r.rand((size_t) n, (size_t) 3); }); }
void o_rngm(In& g, One& o) { rng r((unsigned) g.n(0, 9999)); unsigned n = (unsigned) g.n(1, 9); o([&] { return r.rand_mask(255, n); }); }
void o_rngb(In& g, One& o) { rng r((unsigned) g.n(0, 9999)); size_t n = g.n(1, 9); o([&] { return r.bernoulli(n); }); }
void o_mt(In& g, One& o) { mt r((uint32_t) g.n(0, 9999)); unsigned n = (unsigned) g.n(1, 9); int w = (int) g.n(0, 1); o([&] { return w == 0 ? r.rand(n) : r.randn(n); }); }
matrix<double> probs(In& g) { size_t n = g.n(2, 5); matrix<double> p(n, 1, 0); double q = 0; for (size_t i = 0; i < n; i++) q += (p(i) = g.pos()); return p / q; }
void o_mtn(In& g, One& o) { mt r((uint32_t) g.n(0, 9999)); auto p = probs(g); unsigned n = (unsigned) g.n(1, 9); o([&] { return r.nonuniform(p, n); }); }
void o_mtn1(In& g, One& o) { mt r((uint32_t) g.n(0, 9999)); auto p = probs(g); o([&] { return r.nonuniform(p); }); }
void o_mtset(In& g, One& o) { mt r((uint32_t) g.n(0, 9999)); auto p = probs(g); o([&] { r.set_probabilities(p); unsigned v = 0; for (int i = 0; i < 5; i++) v = v * 8 + r.nonuniform(); return v; }); }
// replacing the probabilities of a generator: afterwards it draws by the new ones, by the old ones, or has none
void o_mtset2(In& g, One& o)
{
    mt r((uint32_t) g.n(0, 9999)); size_t n = g.n(4, 7), first = g.n(0, 1); matrix<double> p(n, 1, 0), q(n, 1, 0); if (p.size() != n || q.size() != n) return; bool sp[8] = {}, sq[8] = {};
    auto fill = [&](matrix<double>& w, bool* s) { double tot = 0; size_t k = g.n(1, 3); while (k--) { size_t i = g.n(1, (long) n - 1); s[i] = true; } for (size_t i = 0; i < n; i++) if (s[i]) tot += (w(i) = g.pos()); w = w / tot; };
    fill(p, sp); fill(q, sq); if (first) r.set_probabilities(p);
    unsigned v[24];
    o([&] { r.set_probabilities(q); for (unsigned& x : v) x = r.nonuniform(); double sum = 0; for (unsigned x : v) sum = sum * 1.25 + x; return sum; });
    if (o.op && o.refused) for (unsigned& x : v) x = r.nonuniform();
    bool op = true, oq = true, none = true; for (unsigned x : v) { if (x >= n) { op = oq = none = false; break; } op = op && first && sp[x]; oq = oq && sq[x]; none = none && x == 0; }
    if (o.op && !(oq || (o.refused && (op || none)))) { std::string t; for (unsigned x : v) t += std::to_string(x) + " "; rt_fail("half-built", "a generator whose probabilities were replaced draws by neither the old nor the new ones: %s", t.c_str()); }
}
void o_inplace(In& g, One& o)
{
    size_t R = g.n(1, 5), C = g.n(1, 5); auto a = g.mat(R, C), b = g.mat(std::max(R, C), 1); size_t i = g.n(0, (long) R - 1), j = g.n(0, (long) R - 1), k = g.n(0, (long) C - 1), l = g.n(0, (long) C - 1); int w = (int) g.n(0, 6); double v = g.val();
    o([&] {
        bool ok = true;
        switch (w) { case 0: a.swap_rows(i, j); break; case 1: a.swap_cols(k, l); break; case 2: ok = a.set_row(i, b); break; case 3: ok = a.set_col(k, b); break; case 4: a.set_all(v); break; case 5: a(i, k) = v; break; default: a(i + R * k) = v; }
        return ok ? std::move(a) : matrix<double>(); });
}
void o_shape(In& g, One& o) { size_t R = g.n(2, 4), C = g.n(2, 4); auto a = g.mat(R, C); int w = (int) g.n(0, 3); size_t i = g.n(0, (long) R - 1), j = g.n(0, (long) C - 1); o([&] { return w == 0 ? a.row(i) : w == 1 ? a.col(j) : w == 2 ? a.shrink(i, j) : a.reshape(C, R); }); }
void o_assign(In& g, One& o) { size_t R = g.n(1, 4), C = g.n(1, 4); auto a = g.mat(R, C), b = g.mat(R, C); int w = (int) g.n(0, 3); o([&] { if (w == 0) a = a + b; else if (w == 1) a = transpose(a); else if (w == 2) a = a * a; else a = b; return std::move(a); }); }
void o_mtctor(In& g, One& o) { uint32_t s = (uint32_t) g.n(0, 9999); o([&] { mt r(s); mt q(r); return q.rand_mask(0xffffffffu); }); }
ccode code(In& g, int n) { ccode c(n, 1, 2); c.set_generator(7, 0); c.set_generator(5, 1); if (n > 2) c.set_generator((unsigned) g.n(1, 7), 2); return c; }
void o_encode(In& g, One& o) { ccode c = code(g, (int) g.n(2, 3)); auto b = g.bits(g.n(1, 10)); o([&] { return c.encode(b); }); }
void o_ccode(In& g, One& o) { auto b = g.bits(g.n(1, 8)); o([&] { ccode c(2, 1, 2); c.set_generator(7, 0); c.set_generator(5, 1); ccode q(c); return q.encode(b); }); }
void o_decode(In& g, One& o) { ccode c = code(g, (int) g.n(2, 3)); auto e = c.encode(g.bits(g.n(1, 6))); matrix<double> r(e.size(), 1, 0); for (size_t i = 0; i < e.size(); i++) r(i) = (e(i) ? 1.0 : -1.0) + g.val() / 16; o([&] { return c.decode_bcjr(r, 1.5); }); }
void o_cabs(In& g, One& o) { auto a = g.matc(g.n(1, 4), g.n(1, 4)); o([&] { return susa::abs(a); }); }
template <class T> void chan(In& g, One& o, int what)
{
    size_t nt = g.n(2, 4), np = nt < 4 && what != 3 && g.g.chance(30) ? 4 : 2; matrix<T> taps(1, nt, 0); taps(0) = 1; for (size_t i = 1; i < nt; i++) taps(i) = (T) g.val() / 16; matrix<T> pam(np, 1, 0); for (size_t i = 0; i < np; i++) pam(i) = (T) ((double) np - 1 - 2 * (double) i); if (np == 2 && g.g.chance(40)) pam(g.n(0, 1)) = 0;
    if (g.g.chance(30)) taps = transpose(taps); channel<T> ch(taps, pam); matrix<T> x(g.n((long) nt + (what == 2 ? (long) nt : 0), 9), 1, 0); for (size_t i = 0; i < x.size(); i++) x(i) = pam(g.n(0, (long) np - 1));
    matrix<T> y = ch.encode_isi(x, 0); for (size_t i = 0; i < y.size(); i++) y(i) = y(i) + (T) g.val() / 32;
    if (what == 0) o([&] { return ch.encode_isi(x, 1); }); else if (what == 1) o([&] { return ch.decode_mlse(y, 0); }); else if (what == 2) o([&] { return ch.decode_mlse(y); }); else if (what == 3) o([&] { return ch.decode_bcjr(y, 2); });
    else o([&] { channel<T> c(taps, pam); channel<T> d(c); return d.decode_mlse(y, 0); });
}
void o_isi(In& g, One& o) { chan<double>(g, o, 0); }
void o_mlse(In& g, One& o) { chan<double>(g, o, 1); }
void o_mlseu(In& g, One& o) { chan<double>(g, o, 2); }
void o_eqbcjr(In& g, One& o) { chan<double>(g, o, 3); }
void o_chan(In& g, One& o) { chan<double>(g, o, 4); }
void o_chanf(In& g, One& o) { chan<float>(g, o, (int) g.n(0, 4)); }
unsigned order(In& g) { static const unsigned o[] = { 4, 16, 64, 256 }; return o[g.n(0, 3)]; }
void o_qamc(In& g, One& o) { unsigned m = order(g); o([&] { qam q(m); return q.get_constellation(); }); }
void o_qamd(In& g, One& o) { unsigned m = order(g); double db = g.val(); o([&] { qam q(m); qam r(q); return r.get_noise_deviation(db); }); }
void o_demod(In& g, One& o) { qam q(order(g)); cd z(g.val() / 3, g.val() / 3); o([&] { return q.demodulate_symbol(z); }); }
void o_qamcopy(In& g, One& o) { qam q(order(g)); o([&] { return q.get_constellation(); }); }
void o_bpsk(In& g, One& o) { auto b = g.bits(g.n(1, 9)); o([&] { return bpsk(b); }); }
void o_awgn(In& g, One& o) { auto a = g.mat(g.n(1, 6), g.n(1, 3)); float db = (float) g.val(); unsigned v = (unsigned) g.n(1, 4); o([&] { return awgn(a, db, v); }); }
void o_awgnc(In& g, One& o) { auto a = g.matc(g.n(1, 6), g.n(1, 3)); float db = (float) g.val(); o([&] { return awgn(a, db); }); }
void o_rrc(In& g, One& o) { unsigned l = (unsigned) g.n(1, 4); double al = 0.1 * (double) g.n(1, 9); int n = (int) g.n(0, 6) * 2 + 1; o([&] { rrcosine r(l, al, n); rrcosine s(r); return s.get(); }); }
void o_array(In& g, One& o) { array<double> a({ 2, 3, 2 }); for (size_t i = 0; i < 12; i++) a(i) = g.val(); int w = (int) g.n(0, 1); o([&] { array<double> b; if (w) b = a; else { array<double> c(a); b = c; } std::vector<double> v; for (size_t i = 0; i < 12; i++) v.push_back(b.get(i)); return v; }); }
}
const OneEnt SINGLES[] = { { "one:fft", o_fft }, { "one:fft-columns", o_fftm }, { "one:dft", o_dft }, { "one:dft-columns", o_dftm }, { "one:fft-log", o_fftlog }, { "one:conv", o_conv }, { "one:conv-matrix", o_convm }, { "one:filter", o_filter }, { "one:convmtx", o_convmtx }, { "one:toeplitz", o_toeplitz },
    { "one:kron", o_kron }, { "one:upsample", o_up }, { "one:downsample", o_down }, { "one:inv", o_inv }, { "one:linsolve", o_linsolve }, { "one:det", o_det }, { "one:rank", o_rank }, { "one:lu", o_lu }, { "one:lup", o_lup }, { "one:lup-alt", o_lupalt }, { "one:lup-solve", o_lupsolve }, { "one:svd", o_svd },
    { "one:concat", o_concat }, { "one:transpose", o_transpose }, { "one:flip", o_flip }, { "one:eye", o_eye }, { "one:matmul", o_matmul }, { "one:sum-mean-norm", o_stats }, { "one:min-max", o_minmax }, { "one:sign", o_sign }, { "one:abs-real-imag", o_cplx }, { "one:complex", o_conj }, { "one:to-complex", o_tocplx },
    { "one:sort", o_sort }, { "one:sort-indices", o_sorti }, { "one:select", o_select }, { "one:cut-vector", o_cutv }, { "one:cut-matrix", o_cutm }, { "one:arithmetic", o_arith }, { "one:copy", o_copy }, { "one:as-vector", o_vecs }, { "one:std-vector", o_stdv }, { "one:diff", o_diff }, { "one:cast", o_cast }, { "one:cast-up", o_castc },
    { "one:text-constructor", o_ctext }, { "one:text-assignment", o_atext }, { "one:rng", o_rng }, { "one:rng-mask", o_rngm }, { "one:rng-bernoulli", o_rngb }, { "one:mt", o_mt }, { "one:nonuniform-n", o_mtn }, { "one:nonuniform", o_mtn1 }, { "one:set-probabilities", o_mtset }, { "one:mt-copy", o_mtctor },
    { "one:encode", o_encode }, { "one:ccode", o_ccode }, { "one:decode", o_decode }, { "one:complex-abs", o_cabs }, { "one:isi", o_isi }, { "one:mlse", o_mlse }, { "one:mlse-unknown-start", o_mlseu }, { "one:equaliser-bcjr", o_eqbcjr }, { "one:channel", o_chan }, { "one:channel-float", o_chanf },
    { "one:qam", o_qamc }, { "one:qam-deviation", o_qamd }, { "one:demodulate", o_demod }, { "one:constellation", o_qamcopy }, { "one:bpsk", o_bpsk }, { "one:awgn", o_awgn }, { "one:awgn-complex", o_awgnc }, { "one:rrcosine", o_rrc }, { "one:replace-probabilities", o_mtset2 }, { "one:in-place", o_inplace }, { "one:in-place", o_inplace }, { "one:parts", o_shape }, { "one:assign-to-itself", o_assign }, { "one:array", o_array } };
const int SINGLES_N = (int) (sizeof SINGLES / sizeof SINGLES[0]);
int single_count() { return SINGLES_N; }
const char* single_name(int k) { return SINGLES[k].name; }
void single_run(int k, uint64_t seed, Dump& d, const Op* op, Single& r) { In g(seed); One o{ op, d }; SINGLES[k].f(g, o); r.fired = o.fired; r.refused = o.refused; r.empty = o.empty; r.no = o.no; r.parts = o.parts; for (int i = 0; i < 12; i++) { r.part[i] = o.part[i]; r.gone[i] = o.gone[i]; } }
