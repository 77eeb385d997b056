#include "calc_in.h"
namespace {
void c_rng(In& g, Dump& d)
{
    rng r((unsigned) g.n(0, 100000)); for (int i = 0; i < 5; i++) { d.num(r.rand()); d.num(r.randn()); d.raw(r.rand_mask(0xff)); }
    put(d, r.rand((unsigned) g.n(1, 6))); put(d, r.randn((unsigned) g.n(1, 6))); put(d, r.rand_mask(15, (unsigned) g.n(1, 6))); put(d, r.rand(2, 3)); matrix<int8_t> b = r.bernoulli(g.n(1, 8)); put(d, b);
    r.init(3); d.num(r.rand()); rng z; d.num(z.rand());
}
void c_mt(In& g, Dump& d)
{
    mt r((uint32_t) g.n(1, 100000)); put(d, r.rand((unsigned) g.n(1, 6))); put(d, r.randn((unsigned) g.n(1, 6))); put(d, r.rand_mask(31, (unsigned) g.n(1, 6))); for (int i = 0; i < 4; i++) { d.raw(r.bernoulli(0.3)); d.raw(r.randint(12)); }
    matrix<double> p(3, 1, 0); p(0) = 0.5; p(1) = 0.3; p(2) = 0.2; r.set_probabilities(p); d.raw(r.nonuniform()); d.raw(r.nonuniform(p)); put(d, r.nonuniform(p, 4u)); mt q; put(d, q.rand(2u));
}
void c_ccode(In& g, Dump& d)
{
    ccode c(2, 1, 2); c.set_generator(7, 0); c.set_generator(5, 1); matrix<uint8_t> b = g.bits(g.n(3, 12)); matrix<uint8_t> e = c.encode(b); put(d, e);
    matrix<double> r(e.size(), 1, 0); for (size_t i = 0; i < e.size(); i++) r(i) = (e(i) ? 1.0 : -1.0) + g.val() / 16; put(d, c.decode_bcjr(r, 1.5)); put(d, c.decode_bcjr(r, 0.5, 0.3));
    for (unsigned s = 0; s < 4; s++) for (int q = 0; q < 2; q++) { d.raw(c.next_state(s, q)); d.raw(c.next_output(s, q)); }
    ccode c2(c), c3; c3 = c; put(d, c3.encode(b)); put(d, c2.encode(b));
}
void c_ccode3(In& g, Dump& d)
{
    ccode c(3, 1, 3); c.set_generator(13, 0); c.set_generator(15, 1); c.set_generator(17, 2); matrix<uint8_t> b = g.bits(g.n(3, 8)); matrix<uint8_t> e = c.encode(b); put(d, e);
    matrix<double> r(e.size(), 1, 0); for (size_t i = 0; i < e.size(); i++) r(i) = (e(i) ? 1.0 : -1.0) + g.val() / 16; put(d, c.decode_bcjr(r, 1.0));
}
void chan(In& g, Dump& d, int what)
{
    matrix<double> taps(1, 3, 0); taps(0) = 1; taps(1) = g.val() / 16; taps(2) = g.val() / 16; matrix<double> pam(2, 1, 0); pam(0) = 1; pam(1) = -1; if (g.g.chance(30)) pam(1) = 0; else if (g.g.chance(20)) { pam(0) = 0; pam(1) = 2; }
    if ((what == 0 || what == 1) && g.g.chance(30)) { pam = matrix<double>(4, 1, 0); pam(0) = 3; pam(1) = 1; pam(2) = -1; pam(3) = -3; } else if (what < 3 && g.g.chance(25)) { pam = matrix<double>(3, 1, 0); pam(0) = g.g.chance(50) ? 1 : -1; pam(2) = -pam(0); }
    if (g.g.chance(30)) taps = transpose(taps); channel<double> ch(taps, pam); matrix<double> x(g.n(6, 12), 1, 0); for (size_t i = 0; i < x.size(); i++) x(i) = pam(g.n(0, (long) pam.size() - 1));
    matrix<double> y = ch.encode_isi(x, 0); put(d, y); for (size_t i = 0; i < y.size(); i++) y(i) = y(i) + g.val() / 32;
    if (what == 1) put(d, ch.decode_mlse(y, 0)); else if (what == 2) put(d, ch.decode_mlse(y)); else if (what == 3) put(d, ch.decode_bcjr(y, 2.0));
}
void c_isi(In& g, Dump& d) { chan(g, d, 0); }
void c_mlse(In& g, Dump& d) { chan(g, d, 1); }
void c_mlse2(In& g, Dump& d) { chan(g, d, 2); }
void c_eqbcjr(In& g, Dump& d) { chan(g, d, 3); }
void c_chanf(In& g, Dump& d)
{
    matrix<float> taps(1, 3, 0); taps(0) = 1; taps(1) = 0.5f; taps(2) = (float) g.val() / 16; matrix<float> pam(2, 1, 0); pam(0) = 1; pam(1) = -1; channel<float> ch(taps, pam); matrix<float> x(8, 1, 0); for (size_t i = 0; i < 8; i++) x(i) = g.g.chance(50) ? 1.f : -1.f;
    matrix<float> y = ch.encode_isi(x, 1); put(d, y); put(d, ch.decode_mlse(y, 1));
}
void c_qam(In& g, Dump& d)
{
    static const unsigned o[] = { 4, 16, 64 }; qam q(o[g.n(0, 2)]); matrix<cd> s = q.get_constellation(); put(d, s); d.num(q.get_noise_deviation(4));
    for (int i = 0; i < 6; i++) { cd z = s(g.n(0, (long) s.size() - 1)) + cd(g.val() / 10, g.val() / 10); put1<cd>(d, q.demodulate_symbol(z)); }
}
void c_bpsk(In& g, Dump& d) { put(d, bpsk(g.bits(g.n(1, 20)))); }
void c_awgn(In& g, Dump& d) { put(d, awgn(g.mat(g.n(2, 9), 1), 5.f)); put(d, awgn(g.matc(g.n(2, 9), 1), 3.f, 2)); }
void c_rrc(In& g, Dump& d) { rrcosine r((unsigned) g.n(1, 4), 0.1 * (double) g.n(1, 9), (int) g.n(1, 6) * 2 + 1); put(d, r.get()); }
void c_text(In&g, Dump& d) { matrix<double> a("[1 2.5 -3;4 5e1 6]"), b; b = "1 2;3 4"; b = "[7]"; put(d, a); put(d, b); matrix<int> c("1;2;3"); put(d, c); std::string s("[0 -1 2]"); matrix<float> e(s); put(d, e); (void) g; }
void c_print(In& g, Dump& d)
{
    std::ostringstream o; o << g.mat(g.n(1, 4), g.n(1, 4)) << g.mati(2, 2) << g.matc(2, 2) << g.bits(3); std::vector<int> v{ 1, 2, 3 }; o << v; o << std::make_tuple(1, 2.5, 'x'); o << std::make_pair(1, 2); puts_(d, o.str());
}
void c_array(In& g, Dump& d)
{
    array<double> a({ 3, 2, 4 }); for (size_t i = 0; i < 24; i++) a(i) = g.val(); array<double> b(a), c; c = a; b(1, 1, 2) = 9; for (size_t i = 0; i < 24; i++) { d.num(a.get(i)); d.num(b.get(i)); d.num(c.get(i)); }
    d.raw(a.get_raw_index(2, 1, 3)); d.num(a.get(2, 1, 3)); double e[6] = { 1, 2, 3, 4, 5, 6 }; c.clone(e, 6); for (size_t i = 0; i < 6; i++) d.num(c.get(i));
}
void c_bitset(In& g, Dump& d) { size_t n = g.n(1, 40); bitset b(n); for (int i = 0; i < 9; i++) b.set(g.n(0, (long) n - 1)); bitset c(b); c.reset(g.n(0, (long) n - 1)); d.raw(b.any()); for (size_t i = 0; i < n; i++) { d.raw(b.exists(i)); d.raw(c.exists(i)); } d.raw(c.pop()); bitset e(3); e = b; e.set(); d.raw(e.pop()); d.raw(e.any()); }
void c_cut(In& g, Dump& d)
{
    matrix<double> m = g.mat(g.n(2, 5), g.n(2, 5)), v = g.mat(1, g.n(3, 8)); put(d, m.left(1)); put(d, m.right(2)); put(d, m.mid(0, 1)); put(d, v.left(2)); put(d, v.right(2)); put(d, v.mid(1, 2)); put(d, m.shrink(0, 1)); put(d, m.row(1)); put(d, m.col(1));
    putv(d, m.get_row_as_vec(0)); putv(d, m.get_col_as_vec(1)); put(d, m.reshape(m.size(), 1)); m.swap_rows(0, 1); m.swap_cols(0, 1); put(d, m); m.set_row(0, m.row(1)); m.set_col(1, m.col(0)); put(d, m); put(d, concat(m, m)); put(d, concat(m, m.left(1))); put(d, fliplr(m)); put(d, flipud(m)); put(d, transpose(m)); put(d, eye<double>(3));
}
void c_arith(In& g, Dump& d) { size_t r = g.n(1, 5), c = g.n(1, 5); matrix<double> a = g.mat(r, c), b = g.mat(r, c); put(d, a + b); put(d, a - b); put(d, a * b); put(d, a / (b * b + 1.0)); put(d, a + 2.0); put(d, 2.0 - a); put(d, a * 3.0); put(d, a / 4.0); a += b; put(d, a); a -= b; put(d, a); put(d, matmul(a, transpose(b))); d.raw(a == b); d.raw(a != b); }
void c_logalloc(In& g, Dump& d)
{
    typedef matrix<double, allocator_log<double>> L; size_t n = g.n(2, 6); L a(n, n, 1.5), b(a); for (size_t i = 0; i < n * n; i++) b(i) = g.val(); L c = a + b; c = matmul(a, b); put(d, c); put(d, transpose(b)); L e(std::move(b)); put(d, e); fft<double, allocator_log<double>> f; L v(8, 1, 0); for (size_t i = 0; i < 8; i++) v(i) = g.val();
    auto q = f.radix2(v); d.raw(q.size()); for (size_t i = 0; i < q.size(); i++) { d.num(q.get(i).real()); d.num(q.get(i).imag()); }
}
void c_empty(In&, Dump& d)
{
    // empty objects are usable in every documented way
    matrix<double> e, f(e), h; h = e; put(d, e); put(d, f); put(d, h); d.raw(e == f); std::ostringstream o; o << e; puts_(d, o.str()); put(d, transpose(e)); array<int> a, b(a); b = a; ccode c; channel<double>* p = nullptr; (void) p; (void) c;
}
}
const Ent CALC_B[] = { { "rng", c_rng }, { "mt", c_mt }, { "ccode", c_ccode }, { "ccode-3", c_ccode3 }, { "encode-isi", c_isi }, { "mlse", c_mlse }, { "mlse-unknown-start", c_mlse2 }, { "equaliser-bcjr", c_eqbcjr }, { "channel-float", c_chanf },
    { "qam", c_qam }, { "bpsk", c_bpsk }, { "awgn", c_awgn }, { "rrcosine", c_rrc }, { "text", c_text }, { "print", c_print }, { "array", c_array }, { "bitset", c_bitset }, { "cut", c_cut }, { "arithmetic", c_arith }, { "logging-allocator", c_logalloc }, { "empty", c_empty }  };
const int CALC_BN = (int) (sizeof CALC_B / sizeof CALC_B[0]);
