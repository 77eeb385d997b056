// C09: equalisation of an inter-symbol-interference channel with faults.
#include <susa.h>
#include "hist.h"
#include "air.h"
using susa::matrix; using susa::channel;
namespace {
struct Ref
{
    std::vector<double> taps, pam; double gain = 1; size_t l() const { return taps.size() - 1; }
    unsigned P() const { return (unsigned) pam.size(); }
    unsigned N() const { unsigned n = 1; for (size_t i = 0; i < l(); i++) n *= P(); return n; }
    // digit t of a state: the symbol sent t + 1 samples ago
    double sym(unsigned s, size_t t) const { while (t--) s /= P(); return pam[s % P()]; }
    unsigned next(unsigned s, unsigned i) const { return (s * P() + i) % N(); }
    double out(unsigned s, unsigned i) const { double v = taps[0] * pam[i]; for (size_t t = 0; t < l(); t++) v += taps[t + 1] * sym(s, t); return v; }
    // symbols before, the data, the same symbols again
    std::vector<double> framed(const std::vector<double>& x, unsigned init) const { std::vector<double> z; for (size_t t = l(); t-- > 0; ) z.push_back(sym(init, t)); z.insert(z.end(), x.begin(), x.end()); for (size_t t = l(); t-- > 0; ) z.push_back(sym(init, t)); return z; }
    std::vector<double> isi(const std::vector<double>& x, unsigned init) const { std::vector<double> z = framed(x, init), y; for (size_t k = l(); k < z.size(); k++) { double v = 0; for (size_t t = 0; t <= l(); t++) v += taps[t] * z[k - t]; y.push_back(v); } return y; }
    std::vector<double> full(const std::vector<double>& x) const { std::vector<double> y(x.size() + l(), 0.0); for (size_t k = 0; k < x.size(); k++) for (size_t t = 0; t <= l(); t++) y[k + t] += taps[t] * x[k]; return y; }
    static double dist(const std::vector<double>& a, const std::vector<double>& b) { double q = 0; for (size_t k = 0; k < a.size(); k++) q += (a[k] - b[k]) * (a[k] - b[k]); return q; }
    // smallest squared distance of y to a framed transmission that starts and ends with init
    double best(const std::vector<double>& y, unsigned init) const
    {
        std::vector<double> m(N(), INFINITY), q; m[init] = 0;
        for (size_t k = 0; k < y.size(); k++) { q.assign(N(), INFINITY); for (unsigned s = 0; s < N(); s++) if (m[s] < INFINITY) for (unsigned i = 0; i < P(); i++) { double& t = q[next(s, i)]; t = std::min(t, m[s] + (y[k] - out(s, i)) * (y[k] - out(s, i))); } m = q; }
        return m[init];
    }
    // the same for a transmission with silence before and after: the first l symbols are the start
    double best_full(const std::vector<double>& y) const
    {
        double r = INFINITY; size_t L = l();
        std::vector<double> m(N()), q;
        for (unsigned s = 0; s < N(); s++) { std::vector<double> z; for (size_t t = L; t-- > 0; ) z.push_back(sym(s, t)); double d = 0; for (size_t k = 0; k < L; k++) { double v = 0; for (size_t t = 0; t <= k; t++) v += taps[t] * z[k - t]; d += (y[k] - v) * (y[k] - v); } m[s] = d; }
        for (size_t k = L; k + L < y.size(); k++) { q.assign(N(), INFINITY); for (unsigned s = 0; s < N(); s++) for (unsigned i = 0; i < P(); i++) { double& t = q[next(s, i)]; t = std::min(t, m[s] + (y[k] - out(s, i)) * (y[k] - out(s, i))); } m = q; }
        for (unsigned s = 0; s < N(); s++) { double d = m[s]; for (size_t k = 0; k < L; k++) { double v = 0; for (size_t t = k + 1; t <= L; t++) v += taps[t] * sym(s, t - k - 1); double e = y[y.size() - L + k] - v; d += e * e; } r = std::min(r, d); }
        return r;
    }
    // binary: log P(symbol 1) - log P(symbol 0), from and to state 0
    std::vector<double> map(const std::vector<double>& y, double e) const
    {
        size_t n = y.size(); unsigned S = N(); std::vector<std::vector<double>> A(n + 1, std::vector<double>(S, -INFINITY)), B = A; A[0][0] = 0; B[n][0] = 0;
        auto br = [&](size_t k, unsigned s, unsigned i) { double d = y[k] - out(s, i); return -e * d * d; };
        for (size_t k = 0; k < n; k++) { for (unsigned s = 0; s < S; s++) if (A[k][s] != -INFINITY) for (unsigned i = 0; i < 2; i++) { double& t = A[k + 1][next(s, i)]; t = ladd(t, A[k][s] + br(k, s, i)); } norm0(A[k + 1]); }
        for (size_t k = n; k > 0; k--) { for (unsigned s = 0; s < S; s++) for (unsigned i = 0; i < 2; i++) if (B[k][next(s, i)] != -INFINITY) B[k - 1][s] = ladd(B[k - 1][s], B[k][next(s, i)] + br(k - 1, s, i)); norm0(B[k - 1]); }
        std::vector<double> v(n);
        for (size_t k = 0; k < n; k++) { double p[2] = { -INFINITY, -INFINITY }; for (unsigned s = 0; s < S; s++) for (unsigned i = 0; i < 2; i++) p[i] = ladd(p[i], A[k][s] + br(k, s, i) + B[k + 1][next(s, i)]); v[k] = p[1] - p[0]; }
        return v;
    }
};
struct EqWorld : IWorld
{
    static const int K = 2; int task; channel<double>* c[K] = {}; Ref f[K];
    explicit EqWorld(int t) : task(t) {}
    void kill(int i) { Sut q; delete c[i]; c[i] = nullptr; }
    void make(int i, const Op& op)
    {
        kill(i); Ref r; size_t nt = 2 + (size_t) op.mod(2, op.mod(7, 4) ? 3 : 4); static const double pm[][8] = { { 1, -1 }, { -1, 1 }, { 3, 1, -1, -3 }, { 0, 1 }, { 1, 0, -1 }, { 0, 1, 2 }, { 2, 0.5 }, { -7, -5, -3, -1, 1, 3, 5, 7 }, { -1, 2, 0, 5, -4 } }; static const unsigned pn[] = { 2, 2, 4, 2, 3, 3, 2, 8, 5 };
        int k = op.mod(3, 12); if (k > 8) k = 0; if (k < 2 && op.mod(7, 64) == 5) nt = 6 + (size_t) op.mod(2, 2); if (pn[k] > 2 && nt > 3) nt = 3; if (pn[k] > 4) nt = 2; for (unsigned j = 0; j < pn[k]; j++) r.pam.push_back(pm[k][j]);
        // rarely more states of the channel than fit in a byte: a long response, or a large alphabet
        if (op.mod(7, 64) == 11 && op.mod(5, 6) < 2) { if (op.mod(5, 6)) { nt = 10; while (r.pam.size() > 2) r.pam.pop_back(); } else { nt = 3; r.pam.clear(); for (int j = 0; j < 17; j++) r.pam.push_back((j * 7 + op.mod(2, 17)) % 17 - 8); } }
        Rng g((uint64_t) op.arg(4) * 64 + (uint64_t) op.arg(5)); r.taps.push_back(1); for (size_t t = 1; t < nt; t++) r.taps.push_back(g.chance(15) ? 0 : (g.unit() * 2 - 1) * 0.9); if (g.chance(20)) r.taps[0] = 0.5; if (g.chance(10)) r.taps[0] = -1;
        // everything is linear: the gain of the link is a power of two and changes no decision (gains of 1e-15 to 1e22)
        static const double gains[] = { 0x1p-50, 0x1p-20, 0x1p30, 0x1p70, 0x1p10 }; if (g.chance(30)) r.gain = gains[g.below(5)];
        { Sut q; matrix<double> t(1, nt, 0), p(r.pam.size(), 1, 0); if (op.mod(6, 3) == 1) t = matrix<double>(nt, 1, 0); if (op.mod(7, 3) == 1) p = matrix<double>(1, r.pam.size(), 0); for (size_t j = 0; j < nt; j++) t(j) = r.taps[j] * r.gain; for (size_t j = 0; j < r.pam.size(); j++) p(j) = r.pam[j]; c[i] = new channel<double>(t, p); }
        f[i] = r;
    }
    static void to(matrix<double>& m, const std::vector<double>& v, bool row) { Sut q; m = row ? matrix<double>(1, v.size(), 0) : matrix<double>(v.size(), 1, 0); for (size_t k = 0; k < v.size(); k++) m(k) = v[k]; }
    void apply(const Op& op, const Mode& md) override
    {
        const std::string& n = op.name; const char* nm = n.c_str(); int d = op.mod(0, K), a = op.mod(1, K);
        if (n == "e.new" || !c[d]) make(d, op);
        if (n == "e.new") return;
        if (n == "e.copy") { if (a == d || !c[a]) return; kill(d); { Sut q; c[d] = new channel<double>(*c[a]); } f[d] = f[a]; return; }
        if (n == "e.assign") { if (a == d || !c[a]) return; { Sut q; *c[d] = *c[a]; } f[d] = f[a]; return; }
        Ref& r = f[d]; bool bcjr = n == "e.bcjr", full = n == "e.unknown";
        if (bcjr && (r.P() != 2 || r.N() > 256)) return;
        if (n == "e.float")
        {
            // the same link in single precision
            Rng g((uint64_t) op.arg(2) * 64 + (uint64_t) op.arg(3)); bool fl = op.mod(7, 2); size_t L = (fl ? 2 * r.l() + 1 : r.l() + 1) + (size_t) op.mod(4, 20); unsigned init = (unsigned) op.mod(6, r.N()); std::vector<double> x(L); for (auto& v : x) v = r.pam[g.below((long) r.pam.size())];
            int kind = op.mod(5, AIR_N); std::vector<double> y = air(kind, (uint64_t) op.arg(6) * 64 + op.arg(7), fl ? r.full(x) : r.isi(x, init), 1); bool sat = g.chance(6); if (sat) y[(size_t) g.below((long) y.size())] *= 1e30; for (double& v : y) v = (double) (float) v;
            matrix<float> mt, mp, my, mr; { Sut q; mt = matrix<float>(r.taps.size(), 1, 0); mp = matrix<float>(r.pam.size(), 1, 0); my = g.chance(25) ? matrix<float>(1, y.size(), 0) : matrix<float>(y.size(), 1, 0); if (g.chance(50)) { mt = matrix<float>(1, r.taps.size(), 0); mp = matrix<float>(1, r.pam.size(), 0); } for (size_t j = 0; j < r.taps.size(); j++) mt(j) = (float) r.taps[j]; for (size_t j = 0; j < r.pam.size(); j++) mp(j) = (float) r.pam[j]; for (size_t j = 0; j < y.size(); j++) my(j) = (float) y[j]; }
            auto once = [&] { channel<float> ch(mt, mp); mr = fl ? ch.decode_mlse(my) : ch.decode_mlse(my, init); };
            Outcome o = sut_run(op, md.faults, once);
            if (o.out == O_EXC || (o.out == O_BADALLOC && !o.fired)) rt_fail("unexpected-exception", "decoding threw %s", o.what.c_str());
            if (o.fired && (o.out == O_BADALLOC || mr.size() == 0)) { Sut q; once(); }
            if (mr.size() != L) rt_fail("wrong-result", "%s: %zu samples are decoded to %zu values, %zu are due", nm, y.size(), mr.size(), L);
            std::vector<double> z(L); double scale = 1; for (double v : y) scale += v * v + std::fabs(v) * 16 + 64;
            for (size_t k = 0; k < L; k++) { double v = mr.get(k); bool in = false; for (double s : r.pam) in |= s == v; if (!in) rt_fail("wrong-result", "%s: symbol %zu is decoded to %g, which is not in the constellation", nm, k, v); z[k] = v; }
            if (sat) { Sut q; mt = mp = my = mr = matrix<float>(); return; }  // squared distances beyond the range of numbers
            double got = Ref::dist(y, fl ? r.full(z) : r.isi(z, init)), bst = fl ? r.best_full(y) : r.best(y, init);
            if (!(got <= bst + 1e-5 * scale)) rt_fail("not-most-likely", "%s: the decoded sequence has squared distance %.9g from the received signal, another one has %.9g", nm, got, bst);
            Sut q; mt = mp = my = mr = matrix<float>(); return;
        }
        Rng g((uint64_t) op.arg(2) * 64 + (uint64_t) op.arg(3)); size_t L = (full ? 2 * r.l() + 1 : r.l() + 1) + (size_t) op.mod(4, op.mod(5, 6) == 0 ? 40 : 12); if (r.N() <= 4 && op.mod(7, 32) == 9) L += 200 + 20 * (size_t) op.mod(4, 64); if (r.N() > 256) { full = full && r.P() == 2; L = (full ? 2 * r.l() + 1 : r.l() + 1) + (size_t) op.mod(4, 25); } unsigned init = bcjr ? 0 : (unsigned) op.mod(6, r.N());
        std::vector<double> x(L); int st = (int) g.below(5); for (auto& v : x) v = st == 0 ? r.pam[0] : st == 1 ? r.pam.back() : r.pam[g.below((long) r.pam.size())];
        matrix<double> mx, my, mr; to(mx, x, g.chance(25));
        std::vector<double> ye = full ? r.full(x) : r.isi(x, init), y0;
        if (!full)
        {
            Op eo = op; if (n != "e.encode") eo.fk = F_NONE;
            Outcome q0 = sut_run(eo, md.faults, [&] { my = c[d]->encode_isi(mx, init); });
            if (q0.out == O_EXC || (q0.out == O_BADALLOC && !q0.fired)) rt_fail("unexpected-exception", "encoding threw %s", q0.what.c_str());
            if (q0.fired && (q0.out == O_BADALLOC || my.size() == 0)) { Sut q; my = matrix<double>(); my = c[d]->encode_isi(mx, init); }
            for (size_t k = 0; k < my.size(); k++) y0.push_back(my.get(k) / r.gain);
            if (y0.size() != ye.size()) rt_fail("wrong-result", "%s: sending %zu symbols gives %zu samples, %zu are due", nm, L, y0.size(), ye.size());
            for (size_t k = 0; k < ye.size(); k++) if (!(std::fabs(y0[k] - ye[k]) < 1e-9)) rt_fail("wrong-result", "%s: sample %zu of the transmission is %.12g, the impulse response gives %.12g", nm, k, y0[k], ye[k]);
            if (n == "e.encode") { Sut q; mx = my = matrix<double>(); return; }
        }
        int kind = op.mod(5, AIR_N); std::vector<double> y = air(kind, (uint64_t) op.arg(6) * 64 + op.arg(7), ye, 1); bool sat = !bcjr && g.chance(6); if (sat) { static const double big[] = { 1e160, 1e200, -1e250, 1e155 }; y[(size_t) g.below((long) y.size())] *= big[g.below(4)]; } { std::vector<double> yg = y; for (double& v : yg) v *= r.gain; to(my, yg, g.chance(25)); } double e = op.mod(7, 3) == 0 ? 6 : op.mod(7, 3) == 1 ? 1 : 0.2;
        Outcome o = sut_run(op, md.faults, [&] { mr = bcjr ? c[d]->decode_bcjr(my, e / (r.gain * r.gain)) : full ? c[d]->decode_mlse(my) : c[d]->decode_mlse(my, init); });
        if (o.out == O_EXC || (o.out == O_BADALLOC && !o.fired)) rt_fail("unexpected-exception", "decoding threw %s", o.what.c_str());
        if (o.fired && (o.out == O_BADALLOC || mr.size() == 0)) { Sut q; mr = matrix<double>(); mr = bcjr ? c[d]->decode_bcjr(my, e / (r.gain * r.gain)) : full ? c[d]->decode_mlse(my) : c[d]->decode_mlse(my, init); }
        double scale = 0; for (double v : y) scale += e * (v * v + std::fabs(v) * 8 + 16);
        size_t due = bcjr ? y.size() : L;
        if (mr.size() != due) rt_fail("wrong-result", "%s: %zu samples are decoded to %zu values, %zu are due", nm, y.size(), mr.size(), due);
        std::string t; for (size_t k = 0; k < due && k < 12; k++) t += fmt("%.6g ", mr.get(k)); if (md.emit) rt_obs(task, md.opidx, t.data(), t.size());
        if (bcjr)
        {
            std::vector<double> ref = r.map(y, e);
            for (size_t k = 0; k < due; k++)
            {
                double v = mr.get(k);
                if (ref[k] == INFINITY || ref[k] == -INFINITY) { if (v != v || (ref[k] > 0 ? !(v > 1e250) : v > 1e-250)) rt_fail("wrong-result", "%s: symbol %zu is certain but its likelihood ratio is %g", nm, k, v); }
                else check_ratio(nm, k, v, ref[k], scale);
            }
        }
        else
        {
            std::vector<double> z(L); for (size_t k = 0; k < L; k++) { double v = mr.get(k); bool in = false; for (double s : r.pam) in |= s == v; if (!in) rt_fail("wrong-result", "%s: symbol %zu is decoded to %g, which is not in the constellation", nm, k, v); z[k] = v; }
            if (sat) { Sut q; mx = my = mr = matrix<double>(); return; }  // squared distances beyond the range of numbers: any sequence is as near as another
            double got = Ref::dist(y, full ? r.full(z) : r.isi(z, init)), bst = full ? r.best_full(y) : r.best(y, init);
            double tol = 1e-9 * (1 + bst) + 1e-12 * scale / e;
            if (!(got <= bst + tol)) rt_fail("not-most-likely", "%s: the decoded sequence has squared distance %.12g from the received signal, another one has %.12g", nm, got, bst);
            if (kind == AIR_CLEAN && !(got <= 1e-9 + tol)) rt_fail("not-recovered", "%s: a clean transmission is not recovered", nm);
        }
        Sut q; mx = my = mr = matrix<double>();
    }
    void check_all(const char*) override {}
    uint64_t bytes_held() override { return 0; }
    void destroy_all() override { for (int i = 0; i < K; i++) kill(i); }
};
const char* OPS[] = { "e.new", "e.new", "e.copy", "e.assign", "e.encode", "e.float", "e.known", "e.known", "e.known", "e.unknown", "e.unknown", "e.unknown", "e.bcjr", "e.bcjr", "e.bcjr" };
}
struct S : Scenario
{
    const char* id() override { return "C09"; }
    void gen(Plan& p, Rng& g) override
    {
        gen_heap(p, g);
        int nt = g.chance(60) ? 1 : 2; p.cfg["tasks"] = nt; p.cfg["threads"] = nt > 1; bool faults = g.chance(30);
        int n = (int) g.range(2, nt > 1 ? 7 : 12);
        for (int i = 0; i < n; i++)
        {
            Op o; o.task = (int) g.below(nt); o.name = OPS[g.below((long) (sizeof OPS / sizeof OPS[0]))]; for (int k = 0; k < 8; k++) o.a.push_back(g.below(64));
            if (faults && g.chance(30)) gen_fault(o, g);
            p.ops.push_back(o);
        }
        gen_schedule(p, g, nt, 60000);
    }
    void exec(const Plan& p, int) override
    {
        History h(p); h.md.faults = true;
        for (int t = 0; t < h.nt; t++) h.w[t] = new EqWorld(t);
        h.go(); h.drop();
    }
    std::vector<std::string> counters() override { return air_counters(); }
    bool nontrivial(const Plan&, std::vector<Run>& r) override { for (int k = 1; k < AIR_N; k++) if (r[0].r->user_cnt[k]) return true; return false; }
    const char* nontrivial_rule() override { return "at least one frame crossed a faulty channel (noise, burst, erasure, sign flips, gain change or fading)"; }
};
Scenario* make_scenario() { return new S; }
