// C08: a convolutionally coded link over a faulty channel.
#include <susa.h>
#include "hist.h"
#include "air.h"
using susa::matrix; using susa::ccode;
namespace {
struct Ref
{
    unsigned n = 0, m = 0; std::vector<unsigned> gen;
    unsigned next(unsigned s, int b) const { return (s >> 1) | ((unsigned) b << (m - 1)); }
    bool big() const { return m > 6; }
    // bit j is output j
    unsigned out(unsigned s, int b) const { unsigned v = s | ((unsigned) b << m), o = 0; for (unsigned j = 0; j < n; j++) o |= (unsigned) (__builtin_popcount(v & gen[j]) & 1) << j; return o; }
    std::vector<int> encode(const std::vector<int>& b) const { std::vector<int> o; unsigned s = 0; for (int x : b) { unsigned v = out(s, x); for (unsigned j = 0; j < n; j++) o.push_back((v >> j) & 1); s = next(s, x); } return o; }
    // log P(bit = 1) - log P(bit = 0), trellis from and to the zero state
    std::vector<double> map(const std::vector<double>& r, double ebn0, double c, size_t L) const
    {
        unsigned N = 1u << m; std::vector<std::vector<double>> A(L + 1, std::vector<double>(N, -INFINITY)), B = A; A[0][0] = 0; B[L][0] = 0;
        auto br = [&](size_t k, unsigned s, int b) { unsigned o = out(s, b); double q = 0; for (unsigned j = 0; j < n; j++) q += r[k * n + j] * ((o >> j) & 1 ? 1 : -1); return 2 * ebn0 * q + log(b ? c : 1 - c); };
        for (size_t k = 0; k < L; k++) { for (unsigned s = 0; s < N; s++) if (A[k][s] != -INFINITY) for (int b = 0; b < 2; b++) { double& t = A[k + 1][next(s, b)]; t = ladd(t, A[k][s] + br(k, s, b)); } norm0(A[k + 1]); }
        for (size_t k = L; k > 0; k--) { for (unsigned s = 0; s < N; s++) for (int b = 0; b < 2; b++) if (B[k][next(s, b)] != -INFINITY) B[k - 1][s] = ladd(B[k - 1][s], B[k][next(s, b)] + br(k - 1, s, b)); norm0(B[k - 1]); }
        std::vector<double> v(L);
        for (size_t k = 0; k < L; k++) { double p[2] = { -INFINITY, -INFINITY }; for (unsigned s = 0; s < N; s++) for (int b = 0; b < 2; b++) p[b] = ladd(p[b], A[k][s] + br(k, s, b) + B[k + 1][next(s, b)]); v[k] = p[1] - p[0]; }
        return v;
    }
    // smallest weight of a nonzero codeword of L bits that ends in the zero state
    int distance(size_t L) const
    {
        unsigned N = 1u << m; const int INF = 1 << 28; std::vector<int> z(N, INF), d(N, INF); // z: all zero so far, d: some one sent
        z[0] = 0;
        for (size_t k = 0; k < L; k++) { std::vector<int> z2(N, INF), d2(N, INF); for (unsigned s = 0; s < N; s++) for (int b = 0; b < 2; b++) { unsigned t = next(s, b); int w = __builtin_popcount(out(s, b)); if (z[s] < INF) { int& q = b ? d2[t] : z2[t]; q = std::min(q, z[s] + w); } if (d[s] < INF) d2[t] = std::min(d2[t], d[s] + w); } z = z2; d = d2; }
        return d[0];
    }
};
struct LinkWorld : IWorld
{
    static const int K = 2; int task; ccode* c[K] = {}; Ref f[K];
    explicit LinkWorld(int t) : task(t) {}
    void kill(int i) { Sut q; delete c[i]; c[i] = nullptr; }
    static unsigned gen_of(long v, unsigned m)
    {
        // ten octal digits of at most 3777777777 fit the argument of set_generator
        uint64_t w = m > 20 ? 1 + (uint64_t) (v + 1) * 0x9e3779b97f4a7c15ull : (uint64_t) (v + 1) * 2654435761u; unsigned g = (unsigned) (w >> 7) & (unsigned) ((1ull << (m > 28 ? 29 : m + 1)) - 1); return g ? g : 1;
    }
    static uint32_t octal(unsigned g) { uint32_t o = 0, p = 1; while (g) { o += (g & 7) * p; p *= 10; g >>= 3; } return o; }
    void make(int i, const Op& op)
    {
        kill(i); Ref r; r.n = 1 + (unsigned) op.mod(2, 4); r.m = 1 + (unsigned) op.mod(3, 4); if (r.n == 1 && op.mod(7, 3)) r.n = 2;
        static const unsigned many[] = { 5, 6, 7, 9, 12, 15, 16, 17, 20, 23, 24, 25, 26, 27, 28, 30, 31 }; if (op.mod(6, 5) == 0) r.m = many[op.mod(7, 17)]; if (op.mod(7, 6) == 0) { static const unsigned wide[] = { 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32 }; r.n = wide[op.mod(2, 13)]; }
        static const unsigned known[][3] = { { 5, 7, 7 }, { 13, 15, 11 }, { 19, 29, 23 } };
        for (unsigned j = 0; j < r.n; j++) r.gen.push_back(r.m >= 2 && r.m <= 4 && op.mod(4, 3) == 0 && j < 3 ? known[r.m - 2][j] : gen_of(op.arg(4) * 5 + op.arg(5) + j * 37, r.m));
        { Sut q; c[i] = new ccode(r.n, 1, r.m); for (unsigned j = 0; j < r.n; j++) c[i]->set_generator(octal(r.gen[j]), j); }
        f[i] = r;
    }
    std::vector<int> bits(uint64_t seed, size_t n, unsigned tail) { Rng g(seed); std::vector<int> b(n); int st = (int) g.below(4); for (size_t k = 0; k < n; k++) b[k] = st == 0 ? 1 : st == 1 ? 0 : (int) g.below(2); for (unsigned k = 0; k < tail; k++) b.push_back(0); return b; }
    std::vector<int> encode(int i, const std::vector<int>& b, const char* nm, const Op& op, const Mode& md)
    {
        std::vector<int> o; matrix<uint8_t> x, y;
        { Sut q; x = op.mod(2, 4) == 1 ? matrix<uint8_t>(1, b.size(), 0) : matrix<uint8_t>(b.size(), 1, 0); bool wide = op.mod(5, 4) == 1; for (size_t k = 0; k < b.size(); k++) x(k) = (uint8_t) (b[k] && wide ? 1 + (7 * k + 37 * (size_t) op.arg(4)) % 255 : (size_t) b[k]); }
        Outcome q0 = sut_run(op, md.faults, [&] { y = c[i]->encode(x); });
        if (q0.out == O_EXC || (q0.out == O_BADALLOC && !q0.fired)) rt_fail("unexpected-exception", "encoding threw %s", q0.what.c_str());
        if (q0.fired && (q0.out == O_BADALLOC || y.size() == 0)) { Sut q; y = matrix<uint8_t>(); y = c[i]->encode(x); }   // retry after the failure
        for (size_t k = 0; k < y.size(); k++) o.push_back(y.get(k));
        std::vector<int> e = f[i].encode(b);
        if (o != e) { size_t k = 0; while (k < o.size() && k < e.size() && o[k] == e[k]) k++; rt_fail("wrong-result", "%s: encoding %zu bits gives %zu code bits, %zu are due; the first wrong one is %zu", nm, b.size(), o.size(), e.size(), k); }
        Sut q; x = matrix<uint8_t>(); y = matrix<uint8_t>(); return o;
    }
    void apply(const Op& op, const Mode& md) override
    {
        const std::string& n = op.name; const char* nm = n.c_str(); int d = op.mod(0, K), a = op.mod(1, K);
        if (n == "c.new" || !c[d]) make(d, op);
        Ref& r = f[d];
        if (n == "c.new") {}
        else if (n == "c.gen") { unsigned j = (unsigned) op.mod(2, r.n), g = gen_of(op.arg(3) * 11 + op.arg(4), r.m); { Sut q; c[d]->set_generator(octal(g), j); } r.gen[j] = g; }
        else if (n == "c.copy") { if (a == d || !c[a]) return; kill(d); { Sut q; c[d] = new ccode(*c[a]); } f[d] = f[a]; }
        else if (n == "c.assign") { if (a == d || !c[a]) return; { Sut q; *c[d] = *c[a]; } f[d] = f[a]; }
        else if (n == "c.step")
        {
            unsigned top = (unsigned) ((1ull << r.m) - 1); std::vector<unsigned> st; if (!r.big()) for (unsigned s = 0; s <= top; s++) st.push_back(s); else { st = { 0, top, 1, top - 1, top / 2, top / 2 + 1 }; for (int k = 0; k < 24; k++) st.push_back((unsigned) ((uint64_t) (op.arg(2) * 97 + k + 1) * 0x9e3779b97f4a7c15ull >> 20) & top); }
            for (unsigned s : st) for (int b = 0; b < 2; b++)
            {
                unsigned t, o; { Sut q; t = c[d]->next_state(s, b != 0); o = c[d]->next_output(s, b != 0); }
                if (t != r.next(s, b) || o != r.out(s, b)) rt_fail("wrong-result", "input %d in state %u gives state %u and output %u, due are %u and %u", b, s, t, o, r.next(s, b), r.out(s, b));
            }
            float v; { Sut q; v = c[d]->rate(); } if (std::fabs(v - 1.0 / r.n) > 1e-6) rt_fail("wrong-result", "the rate of a code with one input and %u outputs is %g", r.n, v);
        }
        else if (n == "c.encode") { if (op.mod(3, 3) == 0) { Sut q; c[d]->set_internal_state((uint32_t) (op.arg(4) * 0x10001 + op.arg(5)) & (long) ((1ull << r.m) - 1)); } encode(d, bits((uint64_t) op.arg(2) * 3 + 1, 1 + op.mod(3, r.big() ? 100 : 40), op.mod(4, 2) ? r.m : 0), nm, op, md); }
        else if (n == "c.long") { size_t L = 65537 / r.n + 1 + (size_t) op.mod(3, 50); encode(d, bits((uint64_t) op.arg(2) * 3 + 1, L, r.m), nm, op, md); }
        else if (n == "c.frame")
        {
            if (r.m > 6) { encode(d, bits((uint64_t) op.arg(2) * 3 + 1, 1 + op.mod(3, 60), r.m), nm, op, md); return; }
            size_t L = 1 + (size_t) op.mod(3, r.m > 5 ? 8 : op.mod(5, 6) == 0 ? 60 : 16); if (r.m == 1 && r.n < 3 && op.arg(6) == 7) L = 300 + 20 * (size_t) op.mod(3, 64); std::vector<int> b = bits((uint64_t) op.arg(2) * 7 + 3, L, r.m), e = encode(d, b, nm, op, Mode());
            std::vector<double> x; for (int v : e) x.push_back(v ? 1 : -1);
            int kind = op.mod(4, AIR_N); int dist = r.distance(b.size()), flips = dist > 0 && dist < 1000 ? (dist - 1) / 2 : 0; if (flips > 1 && op.mod(6, 2)) flips = 1 + (int) op.mod(7, flips);
            static const double E[] = { 5, 1, 0.3, 2.5, 8, 14, 60, 400, 1e5, 0.004 }, C[] = { 0.5, 0.5, 0.5, 0.3, 0.85, 0.999, 1e-6 }; int wide = op.mod(6, 4) == 0; double ebn0 = kind == AIR_FLIP ? 8 : E[op.mod(6, wide ? 10 : 5)], ck = kind == AIR_FLIP ? 0.5 : C[op.mod(7, wide ? 7 : 5)];
            std::vector<double> y = air(kind, (uint64_t) op.arg(5) * 64 + op.arg(6), x, flips);
            // a strong estimate of the signal quality with samples near zero: all parts of the metric count
            if (wide && kind != AIR_FLIP && kind != AIR_CLEAN && ebn0 > 8 && op.mod(2, 3)) for (double& v : y) v = v * 4 / ebn0;
            // a sample or a whole frame near the end of the range of numbers
            if (kind != AIR_FLIP && kind != AIR_CLEAN && op.mod(5, 11) == 3) { static const double big[] = { 1e18, 1e40, 1e100, 1e155, 1e250 }; double q = big[op.mod(7, 5)]; if (op.mod(2, 2)) for (double& v : y) v *= q; else y[(size_t) op.mod(6, (long) y.size())] *= q; }
            matrix<double> rx, lr; bool dflt = ck == 0.5 && op.mod(2, 2); Outcome o;
            { Sut q; rx = op.mod(3, 4) == 1 ? matrix<double>(1, y.size(), 0) : matrix<double>(y.size(), 1, 0); for (size_t k = 0; k < y.size(); k++) rx(k) = y[k];
              if (op.mod(5, 5) == 0) c[d]->set_internal_state((uint32_t) op.mod(6, 1 << r.m)); }
            o = sut_run(op, md.faults, [&] { lr = dflt ? c[d]->decode_bcjr(rx, ebn0) : c[d]->decode_bcjr(rx, ebn0, ck); });
            if (o.out == O_EXC || (o.out == O_BADALLOC && !o.fired)) rt_fail("unexpected-exception", "decoding threw %s", o.what.c_str());
            if (o.fired && (o.out == O_BADALLOC || lr.size() == 0)) { Sut q; lr = matrix<double>(); lr = dflt ? c[d]->decode_bcjr(rx, ebn0) : c[d]->decode_bcjr(rx, ebn0, ck); }   // retry after the failure
            if (lr.size() < b.size()) rt_fail("wrong-result", "%s: decoding %zu bits returns %zu values", nm, b.size(), lr.size());
            std::vector<double> ref = r.map(y, ebn0, ck, b.size()); double scale = 0; for (double v : y) scale += std::fabs(v) * ebn0 * 4;
            std::string t;
            for (size_t k = 0; k < b.size(); k++)
            {
                double v = lr.get(k); if (ref[k] == ref[k]) { if (ref[k] == INFINITY || ref[k] == -INFINITY) { if (v != v || (ref[k] > 0 ? !(v > 1e250) : v > 1e-250)) rt_fail("wrong-result", "%s: bit %zu is certain but its likelihood ratio is %g", nm, k, v); } else check_ratio(nm, k, v, ref[k], scale); }
                if ((kind == AIR_CLEAN || kind == AIR_FLIP) && dist > 0 && (kind == AIR_FLIP || (ebn0 >= 5 && ck == 0.5)) && (v > 1) != (b[k] == 1)) rt_fail("not-recovered", "%s: bit %zu is decoded wrongly although only %d of %zu code bits arrived wrong and the code distance is %d", nm, k, kind == AIR_FLIP ? flips : 0, y.size(), dist);
                if (k < 12) t += fmt("%.6g ", v);
            }
            if (md.emit) rt_obs(task, md.opidx, t.data(), t.size());
            Sut q; rx = lr = matrix<double>();
        }
        else rt_internal("unknown operation %s", nm);
    }
    void check_all(const char*) override {}
    uint64_t bytes_held() override { return 0; }
    void destroy_all() override { for (int i = 0; i < K; i++) kill(i); }
};
const char* OPS[] = { "c.new", "c.gen", "c.copy", "c.assign", "c.step", "c.encode", "c.encode", "c.frame", "c.frame", "c.frame", "c.frame", "c.frame" }; // c.long is rare
}
struct S : Scenario
{
    const char* id() override { return "C08"; }
    void gen(Plan& p, Rng& g) override
    {
        gen_heap(p, g);
        int nt = g.chance(60) ? 1 : 2; p.cfg["tasks"] = nt; p.cfg["threads"] = nt > 1; bool faults = g.chance(30);
        int n = (int) g.range(2, nt > 1 ? 7 : 12);
        for (int i = 0; i < n; i++)
        {
            Op o; o.task = (int) g.below(nt); o.name = g.below(400) ? OPS[g.below((long) (sizeof OPS / sizeof OPS[0]))] : "c.long"; for (int k = 0; k < 8; k++) o.a.push_back(g.below(64));
            if (faults && g.chance(30)) gen_fault(o, g);
            p.ops.push_back(o);
        }
        gen_schedule(p, g, nt, 60000);
    }
    void exec(const Plan& p, int) override
    {
        History h(p); h.md.faults = true;
        for (int t = 0; t < h.nt; t++) h.w[t] = new LinkWorld(t);
        h.go(); h.drop();
    }
    std::vector<std::string> counters() override { return air_counters(); }
    bool nontrivial(const Plan&, std::vector<Run>& r) override { for (int k = 1; k < AIR_N; k++) if (r[0].r->user_cnt[k]) return true; return false; }
    const char* nontrivial_rule() override { return "at least one frame crossed a faulty channel (noise, burst, erasure, sign flips, gain change or fading)"; }
};
Scenario* make_scenario() { return new S; }
