// C10: modulation links (QAM, BPSK, pulse shaping, Gaussian noise) over a faulty channel.
#include <susa.h>
#include "hist.h"
#include "air.h"
#include <algorithm>
using susa::matrix; using susa::qam; typedef std::complex<double> cd;
namespace {
struct LinkWorld : IWorld
{
    static const int K = 3; int task; qam* q[K] = {}; unsigned ord[K]; std::vector<cd> pts[K]; double step[K];
    explicit LinkWorld(int t) : task(t) {}
    void kill(int i) { Sut s; delete q[i]; q[i] = nullptr; }
    void make(int i, const Op& op)
    {
        static const unsigned O[] = { 4, 16, 64, 256, 16, 4 }; kill(i); ord[i] = O[op.mod(2, 6)];
        { Sut s; q[i] = new qam(ord[i]); }
        survey(i, "a new modulator");
    }
    // the constellation: a centred square grid of distinct points
    void survey(int i, const char* nm)
    {
        matrix<cd> m; { Sut s; m = q[i]->get_constellation(); } size_t M = ord[i]; std::vector<cd> v;
        if (m.size() != M) rt_fail("wrong-result", "%s: %u-QAM has %zu points", nm, ord[i], m.size());
        for (size_t k = 0; k < M; k++) v.push_back(m.get(k));
        { Sut s; m = matrix<cd>(); }
        double mn = INFINITY; cd c(0, 0); for (size_t a = 0; a < M; a++) { c += v[a]; if (v[a] != v[a]) rt_fail("not-a-number", "%s: point %zu of %u-QAM is not a number", nm, a, ord[i]); for (size_t b = 0; b < a; b++) mn = std::min(mn, std::abs(v[a] - v[b])); }
        if (!(mn > 1e-6)) rt_fail("wrong-result", "%s: two points of %u-QAM coincide", nm, ord[i]);
        if (std::abs(c) > 1e-6 * mn * M) rt_fail("wrong-result", "%s: %u-QAM is not centred", nm, ord[i]);
        long side = std::lround(std::sqrt((double) M));
        for (cd p : v) for (double x : { p.real(), p.imag() }) { double k = x / mn + (side - 1) / 2.0; if (std::fabs(k - std::round(k)) > 1e-6 || k < -0.1 || k > side - 0.9) rt_fail("wrong-result", "%s: the point (%g,%g) of %u-QAM is not on the square grid of spacing %g", nm, p.real(), p.imag(), ord[i], mn); }
        pts[i] = v; step[i] = mn;
    }
    double gap(int d, cd y) { double b = INFINITY; for (cd p : pts[d]) b = std::min(b, std::abs(y - p)); return b; }
    cd decide(int d, cd y, const Op& op, const Mode& md, const char* nm)
    {
        cd r; Outcome o = sut_run(op, md.faults, [&] { r = q[d]->demodulate_symbol(y); });
        if (o.out == O_EXC || (o.out == O_BADALLOC && !o.fired)) rt_fail("unexpected-exception", "demodulation threw %s", o.what.c_str());
        if (o.fired && o.out == O_BADALLOC) { Sut s; r = q[d]->demodulate_symbol(y); }
        bool in = false; for (cd p : pts[d]) in |= p == r;
        if (!in) rt_fail("wrong-result", "%s: (%g,%g) is demodulated to (%g,%g), which is not in the %u-QAM constellation", nm, y.real(), y.imag(), r.real(), r.imag(), ord[d]);
        double best = gap(d, y); if (!(std::abs(y - r) <= best + 1e-9 + 1e-14 * std::abs(y))) rt_fail("wrong-result", "%s: (%g,%g) is demodulated to (%g,%g) although another point of %u-QAM is nearer", nm, y.real(), y.imag(), r.real(), r.imag(), ord[d]);
        return r;
    }
    static double xrc(double f, double a) { f = std::fabs(f); if (f > (1 + a) * 0.5) return 0; if (f > (1 - a) * 0.5) return std::max(0.0, 0.5 * (1 + std::cos(M_PI / a * (f - (1 - a) * 0.5)))); return 1; }
    static std::vector<double> rrc(unsigned L, double a, int n)
    {
        std::vector<double> g(n, 0.0); int h = (n - 1) / 2; double e = 0;
        for (int i = 0; i < n; i++) { for (int m = -h; m <= h; m++) g[i] += std::sqrt(xrc((double) L * m / n, a)) * std::cos(2 * M_PI * m * (i - h) / n); e += g[i] * g[i]; }
        for (auto& v : g) v /= std::sqrt(e); return g;
    }
    static std::vector<cd> conv(const std::vector<double>& g, const std::vector<cd>& x) { std::vector<cd> y(x.size() + g.size() - 1); for (size_t i = 0; i < x.size(); i++) if (x[i] != cd(0, 0)) for (size_t k = 0; k < g.size(); k++) y[i + k] += g[k] * x[i]; return y; }
    template <class A, class B> static double dev(const A& m, const std::vector<B>& v) { double d = 0; for (size_t k = 0; k < v.size(); k++) { double e = std::abs(m.get(k) - v[k]); if (!(e <= d)) d = e; } return d; }
    std::vector<cd> cair(int kind, uint64_t seed, const std::vector<cd>& x, double sc)
    {
        std::vector<double> v; for (cd c : x) { v.push_back(c.real() / sc); v.push_back(c.imag() / sc); }
        v = air(kind, seed, v, 1); std::vector<cd> y; for (size_t k = 0; k < x.size(); k++) y.push_back(cd(v[2 * k] * sc, v[2 * k + 1] * sc)); return y;
    }
    static bool cxk(const Op& op) { return op.mod(4, 2); }
    static double rolloff(Rng& g) { static const double r[] = { 0, 0.01, 0.02, 0.05, 0.08, 0.1, 0.9, 0.95, 0.99, 1 }; return g.chance(35) ? r[g.below(10)] : 0.12 + 0.76 * g.unit(); }
    void apply(const Op& op, const Mode& md) override
    {
        const std::string& n = op.name; const char* nm = n.c_str(); int d = op.mod(0, K), a = op.mod(1, K);
        if (n == "l.new" || !q[d]) make(d, op);
        if (n == "l.new") return;
        if (n == "l.copy" || n == "l.assign")
        {
            if (a == d || !q[a]) return;
            if (n == "l.copy") { kill(d); Sut s; q[d] = new qam(*q[a]); } else { Sut s; *q[d] = *q[a]; }
            ord[d] = ord[a]; survey(d, nm); return;
        }
        if (n == "l.survey") { survey(d, nm); return; }
        Rng g((uint64_t) op.arg(3) * 64 + (uint64_t) op.arg(4)); uint64_t as = (uint64_t) op.arg(6) * 64 + (uint64_t) op.arg(7); int kind = op.mod(5, AIR_N); double amp = 0; for (cd p : pts[d]) amp = std::max(amp, std::max(std::fabs(p.real()), std::fabs(p.imag())));
        std::string t;
        if (n == "l.dev")
        {
            double db = (double) (op.mod(2, 61) - 20) / 2, s, es = 0; Sut q0; s = q[d]->get_noise_deviation(db);
            for (cd p : pts[d]) es += std::norm(p); es /= ord[d]; double eb = es / std::log2((double) ord[d]), n0 = eb / std::pow(10, db / 10), due = std::sqrt(n0 / 2);
            if (!(std::fabs(s - due) <= 1e-6 * due)) rt_fail("wrong-result", "at Eb/N0 = %g dB the noise deviation of %u-QAM is %.10g, it should be %.10g", db, ord[d], s, due);
        }
        else if (n == "l.link")
        {
            size_t L = 1 + (size_t) op.mod(2, 24); std::vector<cd> x; for (size_t k = 0; k < L; k++) x.push_back(pts[d][g.below((long) ord[d])]);
            std::vector<cd> y = cair(kind, as, x, step[d] / 2);
            for (size_t k = 0; k < L; k++)
            {
                cd r = decide(d, y[k], op, md, nm);
                if (std::fabs((y[k] - x[k]).real()) < step[d] / 2 * 0.999999 && std::fabs((y[k] - x[k]).imag()) < step[d] / 2 * 0.999999 && r != x[k]) rt_fail("not-recovered", "(%g,%g) received as (%g,%g) is demodulated to (%g,%g)", x[k].real(), x[k].imag(), y[k].real(), y[k].imag(), r.real(), r.imag());
                if (t.size() < 200) t += fmt("%g,%g ", r.real(), r.imag());
            }
        }
        else if (n == "l.edge")
        {
            // close to the border of two decision regions
            for (int k = 0; k < 6; k++)
            {
                cd p = pts[d][g.below((long) ord[d])]; double e = step[d] * (0.5 - 1e-3 * (1 + g.unit())); cd y = p + cd(g.chance(50) ? e : -e, g.chance(30) ? e : -e * g.unit());
                cd r = decide(d, y, op, md, nm); if (r != p) rt_fail("not-recovered", "(%g,%g) received as (%g,%g) is demodulated to (%g,%g)", p.real(), p.imag(), y.real(), y.imag(), r.real(), r.imag());
            }
            // far outside, in any direction: decide() compares with the nearest point
            for (int k = 0; k < 4; k++) { double m = std::pow(10.0, g.unit() * 13), w = g.unit() * 2 * M_PI; cd y(m * std::cos(w), g.chance(20) ? 0.7 * step[d] * g.unit() : m * std::sin(w)); cd r = decide(d, y, op, md, nm); if (t.size() < 300) t += fmt("%g,%g ", r.real(), r.imag()); }
        }
        else if (n == "l.shaped")
        {
            // symbols, up-sampling, pulse shaping, channel, matched filter, sampling, decision
            unsigned L = 2 + (unsigned) op.mod(2, 4); double al = rolloff(g); int nt = (int) (L * (4 + g.below(6))) | 1; size_t N = 2 + (size_t) g.below(12);
            std::vector<double> tap = rrc(L, al, nt); std::vector<cd> x, up; for (size_t k = 0; k < N; k++) x.push_back(pts[d][g.below((long) ord[d])]); up.assign(N * L, cd(0, 0)); for (size_t k = 0; k < N; k++) up[k * L] = x[k];
            std::vector<cd> tx = conv(tap, up); std::vector<cd> ch = cair(kind, as, tx, step[d] * 0.02); std::vector<cd> rx = conv(tap, ch);
            matrix<cd> mx, mt, mc, mr; matrix<double> f; { Sut s; mx = matrix<cd>(N, 1, cd(0, 0)); for (size_t k = 0; k < N; k++) mx(k) = x[k]; mc = matrix<cd>(ch.size(), 1, cd(0, 0)); for (size_t k = 0; k < ch.size(); k++) mc(k) = ch[k]; }
            auto go = [&] { susa::rrcosine rr(L, al, nt); f = rr.get(); matrix<double> one(1, 1, 1.0); mt = susa::filter(f, one, susa::upsample(mx, L), f.size() - 1); mr = susa::filter(f, one, mc, f.size() - 1); };
            Outcome o = sut_run(op, md.faults, go);
            if (o.out == O_EXC || (o.out == O_BADALLOC && !o.fired)) rt_fail("unexpected-exception", "pulse shaping threw %s", o.what.c_str());
            if (o.fired && (o.out == O_BADALLOC || !f.size() || !mt.size() || !mr.size())) { Sut s; f = matrix<double>(); mt = mr = matrix<cd>(); go(); }
            if (f.size() != tap.size()) rt_fail("wrong-result", "a root-raised cosine of order %d has %zu taps", nt, f.size());
            double e = 0; for (size_t k = 0; k < f.size(); k++) { double v = f.get(k); e += v * v; if (!(std::fabs(v - f.get(f.size() - 1 - k)) < 1e-6)) rt_fail("wrong-result", "the root-raised cosine is not symmetric at tap %zu", k); }
            if (!(std::fabs(e - 1) < 1e-6)) rt_fail("wrong-result", "the root-raised cosine has energy %.9g", e);
            double fd = dev(f, tap); if (!(fd < 1e-6)) rt_fail("wrong-result", "root-raised cosine (L %u, roll-off %g, order %d): a tap is off by %g", L, al, nt, fd);
            if (mt.size() != tx.size() || mr.size() != rx.size()) rt_fail("wrong-result", "%zu symbols are shaped to %zu and filtered to %zu samples, %zu and %zu are due", N, (size_t) mt.size(), (size_t) mr.size(), tx.size(), rx.size());
            double big = 0; for (cd c : ch) big = std::max(big, std::abs(c));
            double td = dev(mt, tx), rd = dev(mr, rx); if (!(td < 1e-5 * (1 + amp))) rt_fail("wrong-result", "the shaped signal is off by %g", td); if (!(rd < 1e-5 * (1 + big))) rt_fail("wrong-result", "the matched filter is off by %g", rd);
            Op nf = op; nf.fk = F_NONE;
            for (size_t k = 0; k < N; k++)
            {
                cd z = mr.get((size_t) (nt - 1) + k * L), e0 = rx[(size_t) (nt - 1) + k * L] - x[k]; cd r = decide(d, z, nf, md, nm);
                if (std::fabs(e0.real()) < 0.49 * step[d] && std::fabs(e0.imag()) < 0.49 * step[d]) { rt_count(AIR_N); if (r != x[k]) rt_fail("not-recovered", "symbol %zu, (%g,%g), arrives as (%g,%g) and is demodulated to (%g,%g)", k, x[k].real(), x[k].imag(), z.real(), z.imag(), r.real(), r.imag()); }
                if (t.size() < 200) t += fmt("%g,%g ", r.real(), r.imag());
            }
            Sut s; mx = mt = mc = mr = matrix<cd>(); f = matrix<double>();
        }
        else if (n == "l.taps")
        {
            // the filter alone, over the whole range of its arguments
            unsigned L = 1 + (unsigned) g.below(g.chance(20) ? 20 : 8); double al = rolloff(g); int nt = 1 + 2 * (int) g.below(g.chance(5) ? 400 : g.chance(15) ? 120 : 30); matrix<double> f;
            std::vector<double> tap = rrc(L, al, nt); Outcome o = sut_run(op, md.faults, [&] { susa::rrcosine rr(L, al, nt); f = rr.get(); });
            if (o.out == O_EXC || (o.out == O_BADALLOC && !o.fired)) rt_fail("unexpected-exception", "rrcosine threw %s", o.what.c_str());
            if (o.fired && (o.out == O_BADALLOC || !f.size())) { Sut s; susa::rrcosine rr(L, al, nt); f = rr.get(); }
            if (f.size() != tap.size()) rt_fail("wrong-result", "a root-raised cosine of order %d has %zu taps", nt, f.size());
            double fd = dev(f, tap); if (!(fd < 1e-6)) rt_fail("wrong-result", "root-raised cosine (L %u, roll-off %g, order %d): a tap is off by %g", L, al, nt, fd);
            Sut s; f = matrix<double>();
        }
        else if (n == "l.bpsk")
        {
            size_t r = 1 + (size_t) op.mod(2, 5), c = 1 + (size_t) op.mod(1, 4); bool vast = op.arg(3) == 5 && op.mod(4, 8) == 2; if (vast) r = 65536 + 17 * r; matrix<uint8_t> b; matrix<int8_t> m; { Sut s; b = matrix<uint8_t>(r, c, 0); for (size_t k = 0; k < r * c; k++) b(k) = (uint8_t) (g.chance(45) ? 0 : g.chance(80) ? 1 : g.range(2, 255)); }
            Outcome o = sut_run(op, md.faults, [&] { m = susa::bpsk(b); });
            if (o.out == O_EXC || (o.out == O_BADALLOC && !o.fired)) rt_fail("unexpected-exception", "bpsk threw %s", o.what.c_str());
            if (o.fired && (o.out == O_BADALLOC || !m.size())) { Sut s; m = susa::bpsk(b); }
            if (m.no_rows() != r || m.no_cols() != c) rt_fail("wrong-result", "bpsk of %zux%zu bits has the shape %zux%zu", r, c, (size_t) m.no_rows(), (size_t) m.no_cols());
            std::vector<double> x; for (size_t k = 0; k < r * c; k++) { int v = m.get(k); if (v != (b.get(k) ? 1 : -1)) rt_fail("wrong-result", "bpsk maps %d to %d", (int) b.get(k), v); if (vast) continue; x.push_back(v); t += v > 0 ? '+' : '-'; }
            std::vector<double> y = air(kind, as, x, 1); for (size_t k = 0; k < y.size(); k++) if (std::fabs(y[k] - x[k]) < 0.999 && ((y[k] > 0) != (b.get(k) != 0))) rt_fail("not-recovered", "a BPSK bit is lost");
            Sut s; b = matrix<uint8_t>(); m = matrix<int8_t>();
        }
        else if (n == "l.awgn")
        {
            size_t N = 600 + (size_t) op.mod(2, 64) * 3; if (op.mod(7, 8) == 0) N *= 32; unsigned ovs = 1 + (unsigned) op.mod(1, 4); float db = (float) (op.mod(3, 41) - 10) + 0.25f * (float) op.mod(6, 4); bool keyed = !cxk(op) && op.mod(6, 8) > 4; bool cx = cxk(op); size_t rows = op.mod(5, 2) ? N : N / 3; size_t cols = N / rows; N = rows * cols;
            double P = 0, s1 = 0, s2 = 0, s4 = 0, sx = 0, sre = 0; size_t k2 = 0; double lag = 0, prev = 0, s22 = 0;
            matrix<cd> mc, nc; matrix<double> mr, nr; matrix<int8_t> mk; bool shape = true;
            auto sample = [&](double v) { s1 += v; s2 += v * v; s4 += v * v * v * v; lag += v * prev; prev = v; k2++; };
            if (cx)
            {
                { Sut s; mc = matrix<cd>(rows, cols, cd(0, 0)); for (size_t k = 0; k < N; k++) { mc(k) = cd((double) g.range(-20, 20) / 8, (double) g.range(-20, 20) / 8); P += std::norm(mc.get(k)); } }
                Outcome o = sut_run(op, md.faults, [&] { nc = susa::awgn(mc, db, ovs); });
                if (o.out == O_EXC || (o.out == O_BADALLOC && !o.fired)) rt_fail("unexpected-exception", "awgn threw %s", o.what.c_str());
                if (o.fired && (o.out == O_BADALLOC || !nc.size())) { Sut s; nc = susa::awgn(mc, db, ovs); }
                shape = nc.no_rows() == rows && nc.no_cols() == cols; if (shape) for (size_t k = 0; k < N; k++) { cd v = nc.get(k); sample(v.real()); sample(v.imag()); sx += v.real() * v.imag(); sre += v.real() * v.real(); s22 += v.real() * v.real() * v.imag() * v.imag(); }
            }
            else if (keyed)
            {
                // the noise for a BPSK frame
                { Sut s; matrix<uint8_t> b(rows, cols, 0); for (size_t k = 0; k < N; k++) b(k) = (uint8_t) g.below(2); mk = susa::bpsk(b); P = (double) N; }
                Outcome o = sut_run(op, md.faults, [&] { nr = susa::awgn(mk, db, ovs); });
                if (o.out == O_EXC || (o.out == O_BADALLOC && !o.fired)) rt_fail("unexpected-exception", "awgn threw %s", o.what.c_str());
                if (o.fired && (o.out == O_BADALLOC || !nr.size())) { Sut s; nr = susa::awgn(mk, db, ovs); }
                shape = nr.no_rows() == rows && nr.no_cols() == cols; if (shape) for (size_t k = 0; k < N; k++) sample(nr.get(k));
            }
            else
            {
                { Sut s; mr = matrix<double>(rows, cols, 0); for (size_t k = 0; k < N; k++) { mr(k) = (double) g.range(-20, 20) / 8; P += mr.get(k) * mr.get(k); } }
                Outcome o = sut_run(op, md.faults, [&] { nr = susa::awgn(mr, db, ovs); });
                if (o.out == O_EXC || (o.out == O_BADALLOC && !o.fired)) rt_fail("unexpected-exception", "awgn threw %s", o.what.c_str());
                if (o.fired && (o.out == O_BADALLOC || !nr.size())) { Sut s; nr = susa::awgn(mr, db, ovs); }
                shape = nr.no_rows() == rows && nr.no_cols() == cols; if (shape) for (size_t k = 0; k < N; k++) sample(nr.get(k));
            }
            if (!shape) rt_fail("wrong-result", "the noise for a %zux%zu signal has another shape", rows, cols);
            double var = ovs * P / N / std::pow(10, db / 10) / 2, m = s1 / k2, v = s2 / k2, tol = 6 / std::sqrt((double) k2);
            if (!(std::fabs(m) < tol * std::sqrt(var))) rt_fail("wrong-result", "the noise has mean %g (variance due: %g, %zu samples)", m, var, k2);
            if (!(std::fabs(v / var - 1) < 1.5 * tol)) rt_fail("wrong-result", "the noise has variance %g, %g is due (%zu samples)", v, var, k2);
            if (!(std::fabs(lag / k2) < tol * var)) rt_fail("wrong-result", "successive noise samples are correlated (%g of %g)", lag / k2, var);
            if (!(std::fabs(s4 / k2 / var / var - 3) < 12 * tol)) rt_fail("wrong-result", "the noise is not Gaussian: fourth moment %g of the squared variance (%zu samples)", s4 / k2 / var / var, k2);
            if (cx && !(std::fabs(sx / N) < 1.5 * tol * var)) rt_fail("wrong-result", "the components of complex noise are correlated (%g of %g)", sx / N, var);
            if (cx && !(std::fabs(sre / N / var - 1) < 2.2 * tol)) rt_fail("wrong-result", "the real component of complex noise has variance %g, %g is due (%zu samples)", sre / N, var, N);
            if (cx && !(std::fabs(s22 / N / var / var - 1) < 8 * tol)) rt_fail("wrong-result", "the components of complex noise depend on each other: mean product of their powers is %g of the squared variance (%zu samples)", s22 / N / var / var, N);
            t = fmt("%.6g", v); Sut s; mc = nc = matrix<cd>(); mr = nr = matrix<double>(); mk = matrix<int8_t>();
        }
        else rt_internal("unknown operation %s", nm);
        if (md.emit) rt_obs(task, md.opidx, t.data(), t.size());
    }
    void check_all(const char* when) override { for (int i = 0; i < K; i++) if (q[i]) survey(i, when); }
    uint64_t bytes_held() override { return 0; }
    void destroy_all() override { for (int i = 0; i < K; i++) kill(i); }
};
const char* OPS[] = { "l.new", "l.new", "l.copy", "l.assign", "l.survey", "l.dev", "l.dev", "l.link", "l.link", "l.link", "l.link", "l.edge", "l.shaped", "l.shaped", "l.shaped", "l.bpsk", "l.bpsk", "l.taps", "l.taps", "l.awgn" };
}
struct S : Scenario
{
    const char* id() override { return "C10"; }
    void gen(Plan& p, Rng& g) override
    {
        gen_heap(p, g);
        int nt = g.chance(60) ? 1 : 2; p.cfg["tasks"] = nt; p.cfg["threads"] = nt > 1; bool faults = g.chance(30);
        int n = (int) g.range(2, nt > 1 ? 7 : 12);
        for (int i = 0; i < n; i++)
        {
            Op o; o.task = (int) g.below(nt); o.name = OPS[g.below((long) (sizeof OPS / sizeof OPS[0]))]; for (int k = 0; k < 8; k++) o.a.push_back(g.below(64));
            if (faults && g.chance(30)) gen_fault(o, g);
            p.ops.push_back(o);
        }
        gen_schedule(p, g, nt, 60000);
    }
    void exec(const Plan& p, int) override
    {
        History h(p); h.md.faults = true; h.md.emit = true;
        for (int t = 0; t < h.nt; t++) h.w[t] = new LinkWorld(t);
        h.go();
        rt_op_begin((int) p.ops.size(), "end"); for (int t = 0; t < h.nt; t++) h.w[t]->check_all("at the end");
        h.drop();
    }
    std::vector<std::string> counters() override { auto c = air_counters(); c.push_back("shaped_symbols_within_the_decision_region"); return c; }
    bool nontrivial(const Plan&, std::vector<Run>& r) override { for (int k = 1; k < AIR_N; k++) if (r[0].r->user_cnt[k]) return true; return false; }
    const char* nontrivial_rule() override { return "at least one frame crossed a faulty channel (noise, burst, erasure, sign flips, gain change or fading)"; }
};
Scenario* make_scenario() { return new S; }
