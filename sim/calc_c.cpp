#include "calc_in.h"
// ------------------------------------------------------------------ shared read-only objects
namespace {
struct Shared
{
    matrix<double> m, v, sq; matrix<cd> c; matrix<int> mi; matrix<uint8_t> bits; matrix<double> taps, pam; array<double> a; matrix<unsigned> graph; std::vector<double> vec; matrix<double, allocator_log<double>> ml; matrix<double> empty;
    Shared() : m(4, 3, 0), v(8, 1, 0), sq(4, 4, 0), c(3, 3, cd(0, 0)), mi(7, 1, 0), bits(10, 1, 0), taps(1, 3, 0), pam(2, 1, 0), a({ 2, 3, 4 }), graph(4, 4, 0), vec(6, 0), ml(3, 3, 1.25)
    {
        for (size_t i = 0; i < 12; i++) m(i) = (double) (i * 5 % 7) - 3; for (size_t i = 0; i < 8; i++) v(i) = (double) (i * 3 % 8) - 2.5; for (size_t i = 0; i < 16; i++) sq(i) = (double) ((i * 7) % 5) + (i % 5 == 0 ? 20 : 0);
        for (size_t i = 0; i < 9; i++) c(i) = cd((double) i, (double) i / 2 - 1); for (size_t i = 0; i < 7; i++) mi(i) = (int) (i * 4 % 7); for (size_t i = 0; i < 10; i++) bits(i) = (uint8_t) ((i * i / 2) & 1);
        taps(0) = 1; taps(1) = 0.4; taps(2) = -0.2; pam(0) = 1; pam(1) = -1; for (size_t i = 0; i < 24; i++) a(i) = (double) i * 1.5; for (size_t i = 0; i < 16; i++) graph(i) = (unsigned) ((i * 5 + 3) % 6) * (i % 5 != 0); for (size_t i = 0; i < 6; i++) vec[i] = (double) i * 2 - 3;
        for (size_t i = 0; i < 9; i++) ml(i) = (double) i;
    }
};
Shared* S;
void s_read(In& g, Dump& d) { const Shared& s = *S; for (int i = 0; i < 8; i++) { size_t r = g.n(0, 3), c = g.n(0, 2); d.num(s.m(r, c)); d.num(s.m.get(r, c)); d.num(s.v(g.n(0, 7))); d.num(s.v.get(g.n(0, 7))); } d.raw(s.m.no_rows()); d.raw(s.m.is_square()); d.raw(s.empty.size()); }
void s_copy(In&, Dump& d) { const Shared& s = *S; matrix<double> x(s.m), y; y = s.sq; x(0) = 77; put(d, x); put(d, y); matrix<double> e(s.empty); put(d, e); matrix<double, allocator_log<double>> l(s.ml); put(d, l); }
void s_arith(In& g, Dump& d) { const Shared& s = *S; double k = g.val(); put(d, s.m + s.m); put(d, s.m * k); put(d, k - s.m); put(d, s.m - s.m); put(d, matmul(s.sq, s.m)); put(d, transpose(s.m)); d.raw(s.m == s.m); d.raw(s.m != s.sq); put(d, s.c + s.c); put(d, s.ml + s.ml); }
void s_cut(In&, Dump& d) { const Shared& s = *S; put(d, s.m.row(1)); put(d, s.m.col(2)); put(d, s.m.left(2)); put(d, s.m.right(1)); put(d, s.v.mid(2, 5)); put(d, s.m.shrink(1, 1)); put(d, concat(s.m, s.m)); put(d, fliplr(s.m)); }
void s_linalg(In&, Dump& d) { const Shared& s = *S; d.num(det(s.sq)); put(d, inv(s.sq)); matrix<double> b = s.v.left(4); put(d, linsolve(s.sq, b)); d.raw(rank(s.m)); lu<double> q(s.sq); q.decompose(); put(d, q.get_upper()); }
void s_fft(In&, Dump& d) { const Shared& s = *S; fft<double> f; put(d, f.radix2(s.v)); put(d, f.dft(s.m)); }
void s_base(In&, Dump& d) { const Shared& s = *S; put(d, sum(s.m)); put(d, mean(s.m)); put(d, min(s.m)); put(d, max(s.m)); put(d, norm(s.m)); put(d, susa::abs(s.c)); put(d, mag(s.c)); put(d, real(s.c)); put(d, conj(s.c)); d.num(sum(s.vec)); d.num(mean(s.vec)); d.num(var(s.vec)); }
void s_signal(In&, Dump& d) { const Shared& s = *S; put(d, conv(s.v, s.v)); put(d, toeplitz(s.v)); put(d, kron(s.m, s.taps)); put(d, upsample(s.m, 2)); put(d, convmtx(s.v, 3)); }
void s_search(In&, Dump& d) { const Shared& s = *S; put(d, susa::sort(s.mi)); put(d, sort_indices(s.mi)); put(d, select_least(s.v, 3)); put(d, dijkstra(s.graph, 0)); int t = 2; bitset b = susa::find(s.mi, t); for (size_t i = 0; i < 7; i++) d.raw(b.exists(i)); }
void s_link(In&, Dump& d) { const Shared& s = *S; channel<double> ch(s.taps, s.pam); matrix<double> y = ch.encode_isi(s.pam, 0); put(d, y); ccode cc(2, 1, 2); cc.set_generator(7, 0); cc.set_generator(5, 1); put(d, cc.encode(s.bits)); put(d, bpsk(s.bits)); }
void s_array(In& g, Dump& d) { const Shared& s = *S; for (int i = 0; i < 6; i++) { d.num(s.a(g.n(0, 1), g.n(0, 2), g.n(0, 3))); d.num(s.a.get(g.n(0, 23))); d.raw(s.a.get_raw_index(1, g.n(0, 2), 1)); } array<double> x(s.a), y; y = s.a; x(0) = 5; d.num(x.get(0)); d.num(y.get(5)); std::vector<size_t> i{ 1, 2, 3 }; d.num(s.a.get(i)); }
void s_print(In&, Dump& d) { const Shared& s = *S; std::ostringstream o; o << s.m << s.c << s.mi; puts_(d, o.str()); }
} const Ent SHARED_E[] = { { "shared:read", s_read }, { "shared:copy", s_copy }, { "shared:arith", s_arith }, { "shared:cut", s_cut }, { "shared:linalg", s_linalg }, { "shared:fft", s_fft }, { "shared:base", s_base }, { "shared:signal", s_signal }, { "shared:search", s_search }, { "shared:link", s_link }, { "shared:array", s_array }, { "shared:print", s_print } };
const int SHARED_N = (int) (sizeof SHARED_E / sizeof SHARED_E[0]);
void calc_shared_make() { Sut q; S = new Shared; }
void calc_shared_free() { Sut q; delete S; S = nullptr; }
int calc_shared_count() { return SHARED_N; }
const char* calc_shared_name(int k) { return SHARED_E[k].name; }
void calc_shared_run(int k, uint64_t seed, Dump& d) { In g(seed); SHARED_E[k].f(g, d); }
void calc_shared_check(Dump& d) { Sut q; const Shared& s = *S; put(d, s.m); put(d, s.v); put(d, s.sq); put(d, s.c); put(d, s.mi); put(d, s.bits); put(d, s.taps); put(d, s.pam); put(d, s.graph); put(d, s.ml); for (size_t i = 0; i < 24; i++) d.num(s.a.get(i)); putv(d, s.vec); }

int calc_count() { return CALC_AN + CALC_BN + single_count(); }
static const Ent& ent(int k) { return k < CALC_AN ? CALC_A[k] : CALC_B[k - CALC_AN]; }
const char* calc_name(int k) { return k < CALC_AN + CALC_BN ? ent(k).name : single_name(k - CALC_AN - CALC_BN); }
void calc_run(int k, uint64_t seed, Dump& d) { if (k >= CALC_AN + CALC_BN) { Single r; single_run(k - CALC_AN - CALC_BN, seed, d, nullptr, r); return; } In g(seed); ent(k).f(g, d); }
