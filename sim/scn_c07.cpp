// C07: random streams are the documented sequence of their seed whatever else runs.
#include <susa.h>
#include <random>
#include <optional>
#include "hist.h"
using susa::matrix;
namespace {
typedef std::mt19937 Ref;
struct G
{
    susa::rng* r = nullptr; susa::mt* m = nullptr; Ref ref; bool live() const { return r || m; }
    // sequences drawn so far are a prefix of the reference sequence
};
struct GenWorld : IWorld
{
    static const int K = 3; int task; G g[K];
    explicit GenWorld(int t) : task(t) {}
    void kill(int i) { Sut q; delete g[i].r; delete g[i].m; g[i].r = nullptr; g[i].m = nullptr; }
    void fresh(int i, int kind, long seed, bool dflt)
    {
        kill(i);
        { Sut q; if (kind == 0) g[i].r = dflt ? new susa::rng : new susa::rng((unsigned) seed); else g[i].m = dflt ? new susa::mt : new susa::mt((uint32_t) seed); }
        if (dflt)
        {
            // default-constructed generators agree with each other; their sequence need not be the reference one for any particular seed
            unsigned a[3], b[3]; if (kind == 0) { Sut q; susa::rng* z = new susa::rng; susa::rng y(*g[i].r); for (int k = 0; k < 3; k++) { a[k] = z->rand_mask(~0u); b[k] = y.rand_mask(~0u); } delete z; }
            else { Sut q; susa::mt* z = new susa::mt; susa::mt y(*g[i].m); for (int k = 0; k < 3; k++) { a[k] = z->rand_mask(~0u); b[k] = y.rand_mask(~0u); } delete z; }
            for (int k = 0; k < 3; k++) if (a[k] != b[k]) rt_fail("stream", "two default-constructed generators disagree on draw %d (%08x, %08x)", k, a[k], b[k]);
            seed = 5489;
            Ref t((unsigned) seed); for (int k = 0; k < 3; k++) if (b[k] != (unsigned) t()) rt_fail("stream", "draw %d of a default-constructed generator is %08x, not that of the reference default seed", k, b[k]);
        }
        g[i].ref.seed((unsigned) seed);
    }
    static long seed_of(const Op& op) { static const long s[] = { 0, 1, 5489, 0x7fffffff, 0x80000000, 0xffffffff }; return op.mod(3, 4) == 0 ? s[op.mod(2, 6)] : op.arg(2) * 2654435761l % 4294967296l; }
    unsigned word(int i) { Sut q; return g[i].r ? g[i].r->rand_mask(~0u) : g[i].m->rand_mask(~0u); }
    void expect(unsigned got, unsigned want, const char* what, size_t k) { if (got != want) rt_fail("stream", "%s: draw %zu is %08x, the seeded sequence has %08x", what, k, got, want); }
    void expect01(double got, unsigned w, const char* what, size_t k) { double want = (double) w / 4294967296.0; if (!(got >= 0 && got <= 1) || std::fabs(got - want) > 1e-9) rt_fail("stream", "%s: draw %zu is %.12g, the seeded sequence has %.12g", what, k, got, want); }
    // after draws that consume an unknown number of words: find the place in the reference sequence
    // where a failed request leaves the stream may depend on who initialised a function first: marked for same_per_task
    bool faulted = false; const Mode* emd = nullptr;
    void resync(int i, long most, const char* what)
    {
        unsigned w[4]; { Sut q; if (g[i].r) { susa::rng c(*g[i].r); for (auto& x : w) x = c.rand_mask(~0u); } else { susa::mt c(*g[i].m); for (auto& x : w) x = c.rand_mask(~0u); } }
        Ref t = g[i].ref; unsigned u[4]; for (auto& x : u) x = (unsigned) t();
        for (long k = 0; k <= most; k++)
        {
            if (u[0] == w[0] && u[1] == w[1] && u[2] == w[2] && u[3] == w[3]) { g[i].ref.discard((unsigned long long) k); if (faulted && emd) emit(*emd, fmt("\x01%ld ", k)); return; }
            u[0] = u[1]; u[1] = u[2]; u[2] = u[3]; u[3] = (unsigned) t();
        }
        rt_fail("stream", "after %s the generator has left the sequence of its seed", what);
    }
    // the bulk result against n reference words; on a failed request it must be empty and the stream continue
    template <class M> bool got_all(const Outcome& o, const M& m, size_t n, int i, const char* what)
    {
        if (o.out == O_EXC || (o.out == O_BADALLOC && !o.fired)) rt_fail("unexpected-exception", "%s threw %s", what, o.what.c_str());
        if (o.out == O_OK && m.size() == n) return true;
        if (o.fired && (o.out == O_BADALLOC || m.size() == 0)) { resync(i, (long) n + 1, what); return false; }
        rt_fail("wrong-result", "%s returns %zu of %zu samples", what, m.size(), n);
    }
    void emit(const Mode& md, const std::string& s) { if (md.emit) rt_obs(task, md.opidx, s.data(), s.size()); }
    void apply(const Op& op, const Mode& md) override
    {
        const std::string& n = op.name; const char* nm = n.c_str(); int d = op.mod(0, K), a = op.mod(1, K);
        faulted = md.faults && op.fk != F_NONE; emd = &md;
        if (n == "g.new") { fresh(d, op.mod(1, 2), seed_of(op), false); return; }
        if (n == "g.default") { fresh(d, op.mod(1, 2), 0, true); return; }
        if (n == "g.kill") { kill(d); return; }
        if (!g[d].live()) fresh(d, op.mod(4, 2), seed_of(op), false);
        bool isr = g[d].r != nullptr;
        if (n == "g.init")
        {
            long s = seed_of(op);
            { Sut q; if (isr) g[d].r->init((unsigned) s); else *g[d].m = susa::mt((uint32_t) s); }
            g[d].ref.seed((unsigned) s);
            // ... as if it had just been constructed, whatever was drawn before
            double x[3], y[3];
            { Sut q; if (isr) { susa::rng c(*g[d].r); susa::rng* z = new susa::rng((unsigned) s); for (int k = 0; k < 3; k++) { x[k] = c.randn(); y[k] = z->randn(); } delete z; }
              else { susa::mt c(*g[d].m); susa::mt* z = new susa::mt((uint32_t) s); matrix<double> u = c.randn(3), v = z->randn(3); for (int k = 0; k < 3; k++) { x[k] = u(k); y[k] = v(k); } delete z; } }
            for (int k = 0; k < 3; k++) if (x[k] != y[k]) rt_fail("stream", "Gaussian sample %d after seeding again is %g, a new generator of that seed draws %g", k, x[k], y[k]);
        }
        else if (n == "g.word") { int k = 1 + (int) op.mod(2, 20); for (int j = 0; j < k; j++) expect(word(d), (unsigned) g[d].ref(), nm, j); }
        else if (n == "g.long") { int k = 500 + (int) op.mod(2, 64) * 20; for (int j = 0; j < k; j++) expect(word(d), (unsigned) g[d].ref(), nm, j); }
        else if (n == "g.mask")
        {
            unsigned mask = op.mod(5, 3) == 0 ? 0xffffffffu : op.mod(5, 3) == 1 ? (1u << op.mod(2, 32)) - 1 : (unsigned) op.arg(2) * 2654435761u; size_t k = op.mod(3, 12); if (op.mod(6, 12) == 3) k = 500 + 40 * op.mod(3, 64);
            if (k == 0) k = 1;
            matrix<unsigned> m; Outcome o;
            { Sut q; o = sut_run(op, md.faults, [&] { m = isr ? g[d].r->rand_mask(mask, (unsigned) k) : g[d].m->rand_mask(mask, (unsigned) k); }); }
            if (got_all(o, m, k, d, nm)) for (size_t j = 0; j < k; j++) expect(m.get(j), (unsigned) g[d].ref() & mask, nm, j);
            { Sut q; m = matrix<unsigned>(); }
            unsigned x; { Sut q; x = isr ? g[d].r->rand_mask(mask) : g[d].m->rand_mask(mask); } expect(x, (unsigned) g[d].ref() & mask, nm, k);
        }
        else if (n == "g.rand" || n == "g.mat")
        {
            size_t k = 1 + op.mod(2, 30), rows = 1 + op.mod(3, 6), cols = 1 + op.mod(5, 6); if (op.mod(6, 12) == 3) { k = 500 + 40 * op.mod(2, 40); rows = 10 + op.mod(3, 40); cols = 10 + op.mod(5, 40); } bool mat = isr && n == "g.mat"; if (mat) k = rows * cols;
            matrix<double> m; Outcome o;
            { Sut q; o = sut_run(op, md.faults, [&] { m = mat ? g[d].r->rand((unsigned) rows, (unsigned) cols) : isr ? g[d].r->rand((unsigned) k) : g[d].m->rand((unsigned) k); }); }
            if (got_all(o, m, k, d, nm))
            {
                if (mat && (m.no_rows() != rows || m.no_cols() != cols)) rt_fail("wrong-result", "rand(%zu, %zu) returns %zu x %zu", rows, cols, m.no_rows(), m.no_cols());
                for (size_t j = 0; j < k; j++) { double v = m.get(j); expect01(v, (unsigned) g[d].ref(), nm, j); }
            }
            { Sut q; m = matrix<double>(); }
            if (isr) { double x; { Sut q; x = g[d].r->rand(); } expect01(x, (unsigned) g[d].ref(), "rand", 0); }
        }
        else if (n == "g.split")
        {
            // n samples at once are the next n samples one by one
            size_t k = 2 + op.mod(2, 20), h = 1 + op.mod(3, (long) k - 1); matrix<double> m, p, s;
            { Sut q; if (isr) { susa::rng c(*g[d].r); m = c.rand((unsigned) k); p = g[d].r->rand((unsigned) h); s = g[d].r->rand((unsigned) (k - h)); } else { susa::mt c(*g[d].m); m = c.rand((unsigned) k); p = g[d].m->rand((unsigned) h); s = g[d].m->rand((unsigned) (k - h)); } }
            for (size_t j = 0; j < k; j++) { double x = m.get(j), y = j < h ? p.get(j) : s.get(j - h); if (x != y) rt_fail("stream", "a bulk draw differs from the same draw in two parts at sample %zu", j); expect01(x, (unsigned) g[d].ref(), nm, j); }
            Sut q; m = p = s = matrix<double>();
        }
        else if (n == "g.randn")
        {
            size_t k = 1 + op.mod(2, 24); if (op.mod(6, 24) == 3) k = 600 + op.mod(2, 64) * 11; matrix<double> m, c2; Outcome o;
            { Sut q; if (isr) { susa::rng c(*g[d].r); c2 = c.randn((unsigned) k); } else { susa::mt c(*g[d].m); c2 = c.randn((unsigned) k); }
              o = sut_run(op, md.faults, [&] { m = isr ? g[d].r->randn((unsigned) k) : g[d].m->randn((unsigned) k); }); }
            resync(d, 60 * (long) k + 200, nm);
            if (o.out == O_EXC || (o.out == O_BADALLOC && !o.fired)) rt_fail("unexpected-exception", "randn threw %s", o.what.c_str());
            if (o.out == O_OK && m.size() == k)
            {
                std::string t;
                for (size_t j = 0; j < k; j++) { double x = m.get(j); if (!(std::fabs(x) < 12)) rt_fail("wrong-result", "randn gives %g", x); if (x != c2.get(j)) rt_fail("stream", "a copy of the generator draws other Gaussian samples (sample %zu: %g, %g)", j, x, c2.get(j)); if (t.size() < 2000) t += hexd(x) + " "; }
                emit(md, t);
            }
            else if (!o.fired) rt_fail("wrong-result", "randn returns %zu of %zu samples", m.size(), k);
            { Sut q; m = c2 = matrix<double>(); }
            if (isr && op.mod(3, 2)) { double x, y; { Sut q; susa::rng c(*g[d].r); y = c.randn(); x = g[d].r->randn(); } resync(d, 260, nm); if (x != y) rt_fail("stream", "a copy of the generator draws another Gaussian sample (%g, %g)", x, y); emit(md, hexd(x)); if (!(std::fabs(x) < 12)) rt_fail("wrong-result", "randn gives %g", x); }
        }
        else if (n == "g.even")
        {
            // Gaussian samples drawn in even portions join up
            if (isr) return;
            size_t k = 2 * (1 + op.mod(2, 8)), h = 2 * op.mod(3, (long) k / 2); if (h == 0) h = 2; if (h >= k) k = h + 2; matrix<double> m, p, s;
            { Sut q; susa::mt c(*g[d].m); m = c.randn((unsigned) k); p = g[d].m->randn((unsigned) h); s = g[d].m->randn((unsigned) (k - h)); }
            for (size_t j = 0; j < k; j++) if (m.get(j) != (j < h ? p.get(j) : s.get(j - h))) rt_fail("stream", "Gaussian samples drawn in two parts differ from those drawn at once at sample %zu", j);
            resync(d, 60 * (long) k + 200, nm); Sut q; m = p = s = matrix<double>();
        }
        else if (n == "g.bern")
        {
            size_t k = 1 + op.mod(2, 40); if (op.mod(6, 24) == 3) k = 600 + op.mod(2, 64) * 11;
            if (isr)
            {
                matrix<int8_t> m, c2; Outcome o; { Sut q; susa::rng c(*g[d].r); c2 = c.bernoulli(k); o = sut_run(op, md.faults, [&] { m = g[d].r->bernoulli(k); }); }
                bool all = got_all(o, m, k, d, nm);
                std::string t; if (all) for (size_t j = 0; j < k; j++) { int v = m.get(j); if (v != 0 && v != 1) rt_fail("wrong-result", "bernoulli gives %d", v); if (v != c2.get(j)) rt_fail("stream", "a copy of the generator draws other coin flips (flip %zu)", j); t += (char) ('0' + v); }
                if (all) resync(d, 2 * (long) k + 4, nm);
                emit(md, t); Sut q; m = c2 = matrix<int8_t>();
            }
            else
            {
                std::string t; static const double P[] = { 0.0, 1.0, 0.5, 0.1, 0.75 }; double p = P[op.mod(3, 5)]; size_t ones = 0; std::vector<unsigned> cp(k); { Sut q; susa::mt c(*g[d].m); for (auto& v : cp) v = c.bernoulli(p); }
                for (size_t j = 0; j < k; j++) { unsigned v; { Sut q; v = g[d].m->bernoulli(p); } if (v > 1 || (p == 0 && v) || (p == 1 && !v)) rt_fail("wrong-result", "bernoulli(%g) gives %u", p, v); if (v != cp[j]) rt_fail("stream", "a copy of the generator draws other coin flips (flip %zu)", j); ones += v; t += (char) ('0' + v); }
                if (k > 500 && std::fabs((double) ones - p * (double) k) > 7 * std::sqrt((double) k * p * (1 - p)) + 1) rt_fail("wrong-result", "%zu of %zu Bernoulli draws of probability %g succeed", ones, k, p);
                resync(d, 2 * (long) k + 4, nm); emit(md, t);
            }
        }
        else if (n == "g.int")
        {
            if (isr) return;
            unsigned mx = 1 + (unsigned) op.mod(2, 60); size_t k = 1 + op.mod(3, 20); if (op.mod(6, 24) == 3) { mx = 1 + mx % 6; k = 700; } std::vector<size_t> cnt(mx + 1); std::string t; std::vector<unsigned> cp(k); { Sut q; susa::mt c(*g[d].m); for (auto& v : cp) v = c.randint(mx); }
            for (size_t j = 0; j < k; j++) { unsigned v; { Sut q; v = g[d].m->randint(mx); } if (v < 1 || v > mx) rt_fail("wrong-result", "randint(%u) gives %u", mx, v); if (v != cp[j]) rt_fail("stream", "a copy of the generator draws other integers (draw %zu: %u, %u)", j, v, cp[j]); cnt[v]++; if (t.size() < 2000) t += fmt("%u ", v); }
            if (k > 500) for (unsigned v = 1; v <= mx; v++) { double e = (double) k / mx; if (std::fabs((double) cnt[v] - e) > 7 * std::sqrt(e * (1 - 1.0 / mx)) + 1) rt_fail("wrong-result", "%zu of %zu draws of randint(%u) are %u", cnt[v], k, mx, v); }
            resync(d, 2 * (long) k + 4, nm); emit(md, t);
        }
        else if (n == "g.nonuni")
        {
            if (isr) return;
            size_t c = 2 + op.mod(2, 5); size_t k = 1 + op.mod(3, 12); double tot = 0; std::vector<double> w(c); for (size_t j = 0; j < c; j++) { w[j] = (double) (op.mod(4, 7) + (long) ((j * 5 + 3) % 8)); if (op.mod(5, 3) == 0 && j == op.arg(6) % (long) c) w[j] = 0; tot += w[j]; }
            if (tot == 0) return;
            matrix<double> p; matrix<unsigned> r; std::string t; size_t many = op.mod(7, 16) == 0 ? 1500 : k; std::vector<long> f1(c), f2(c), f3(c);
            { Sut q; p = matrix<double>(c, 1, 0); for (size_t j = 0; j < c; j++) p(j) = w[j] / tot; g[d].m->set_probabilities(p); }
            std::vector<unsigned> cp(std::min<size_t>(many, 40)); { Sut q; susa::mt c(*g[d].m); for (auto& v : cp) { v = c.nonuniform(); c.nonuniform(p); } }
            for (size_t j = 0; j < many; j++)
            {
                unsigned v, u; { Sut q; v = g[d].m->nonuniform(); u = g[d].m->nonuniform(p); }
                if (v >= c || u >= c) rt_fail("wrong-result", "nonuniform gives the index %u of %zu", v >= c ? v : u, c);
                if (j < cp.size() && cp[j] != v) rt_fail("stream", "a copy of the generator draws other indices (draw %zu: %u, %u)", j, v, cp[j]);
                f1[v]++; f2[u]++; if (t.size() < 200) t += fmt("%u%u ", v, u);
            }
            { Sut q; r = g[d].m->nonuniform(p, (unsigned) many); }
            if (r.size() != many) rt_fail("wrong-result", "nonuniform returns %zu of %zu", r.size(), many);
            for (size_t j = 0; j < many; j++) { unsigned v = r.get(j); if (v >= c) rt_fail("wrong-result", "nonuniform gives the index %u of %zu", v, c); f3[v]++; if (t.size() < 300) t += fmt("%u ", v); }
            for (size_t j = 0; j < c; j++) for (auto* f : { &f1, &f2, &f3 })
            {
                double e = w[j] / tot * (double) many, sd = std::sqrt(e * (1 - w[j] / tot)) + 1e-9;
                if ((w[j] == 0 && (*f)[j]) || (many > 1000 && std::fabs((double) (*f)[j] - e) > 7 * sd + 2)) rt_fail("wrong-result", "nonuniform drew index %zu %ld times of %zu, its probability is %g", j, (*f)[j], many, w[j] / tot);
            }
            resync(d, (long) many * 4 + 16, nm); emit(md, t); Sut q; p = matrix<double>(); r = matrix<unsigned>();
        }
        else if (n == "g.copy" || n == "g.assign" || n == "g.move")
        {
            if (a == d) return;
            if (!g[a].live()) fresh(a, op.mod(4, 2), seed_of(op), false);
            bool same = (g[a].r != nullptr) == isr;
            if (n == "g.copy" || !same) { kill(d); Sut q; if (g[a].r) g[d].r = new susa::rng(*g[a].r); else g[d].m = new susa::mt(*g[a].m); }
            else { Sut q; if (isr) *g[d].r = *g[a].r; else *g[d].m = *g[a].m; }
            g[d].ref = g[a].ref;
            unsigned w = (unsigned) g[d].ref(); expect(word(d), w, "a copied generator", 0);          // the copy goes on ...
            unsigned v = (unsigned) g[a].ref(); expect(word(a), v, "a generator that was copied", 0);  // ... and the original too
        }
        else if (n == "g.pairs")
        {
            // samples of many small bulk draws: every position normal and independent of the others (and of the previous draw)
            size_t k = 1 + op.mod(2, 8); const int R = 400; std::vector<double> s1(k), s2(k), c(k * k), prev(k), x(k); double link = 0;
            for (int r = 0; r < R; r++)
            {
                { Sut q; if (isr && k == 1) x[0] = g[d].r->randn(); else { matrix<double> m = isr ? g[d].r->randn((unsigned) k) : g[d].m->randn((unsigned) k); for (size_t j = 0; j < k && m.size() == k; j++) x[j] = m(j); } }
                if (r) link += prev[k - 1] * x[0];
                for (size_t j = 0; j < k; j++) { s1[j] += x[j]; s2[j] += x[j] * x[j]; for (size_t i = 0; i < j; i++) c[j * k + i] += x[i] * x[j]; }
                prev = x;
            }
            for (size_t j = 0; j < k; j++)
            {
                if (!(std::fabs(s1[j] / R) < 0.4 && std::fabs(s2[j] / R - 1) < 0.7)) rt_fail("wrong-result", "sample %zu of %d Gaussian draws of %zu has mean %g and second moment %g", j, R, k, s1[j] / R, s2[j] / R);
                for (size_t i = 0; i < j; i++) if (!(std::fabs(c[j * k + i] / R) < 0.42)) rt_fail("wrong-result", "samples %zu and %zu of %d Gaussian draws of %zu are correlated (%g)", i, j, R, k, c[j * k + i] / R);
            }
            if (!(std::fabs(link / R) < 0.42)) rt_fail("wrong-result", "the last Gaussian sample of a draw and the first of the next are correlated (%g)", link / R);
            resync(d, 60 * (long) k * R + 200, nm);
        }
        else if (n == "g.stat")
        {
            // documented distributions, roughly
            size_t k = 1500; double s = 0, s2 = 0, u = 0, b = 0; matrix<double> m, x;
            { Sut q; m = isr ? g[d].r->randn((unsigned) k) : g[d].m->randn((unsigned) k); x = isr ? g[d].r->rand((unsigned) k) : g[d].m->rand((unsigned) k); }
            for (size_t j = 0; j < k; j++) { s += m.get(j); s2 += m.get(j) * m.get(j); u += x.get(j); }
            for (size_t j = 0; j < k; j++) { Sut q; if (isr) { if (j == 0) { matrix<int8_t> z = g[d].r->bernoulli(k); for (size_t i = 0; i < k; i++) b += z.get(i); } } else b += g[d].m->bernoulli(0.5); }
            if (std::fabs(s / k) > 0.2 || std::fabs(s2 / k - 1) > 0.3) rt_fail("wrong-result", "1500 Gaussian samples have mean %g and second moment %g", s / k, s2 / k);
            if (std::fabs(u / k - 0.5) > 0.06) rt_fail("wrong-result", "1500 uniform samples have mean %g", u / k);
            if (std::fabs(b / k - 0.5) > 0.1) rt_fail("wrong-result", "1500 fair coin flips have mean %g", b / k);
            resync(d, 20000, nm); Sut q; m = x = matrix<double>();
        }
        else if (n == "g.dist")
        {
            // the documented distributions, measured on many samples (every threshold is at least seven standard deviations away)
            const size_t k = 12000; matrix<double> m, x; const double root = std::sqrt((double) k);
            { Sut q; m = isr ? g[d].r->randn((unsigned) k) : g[d].m->randn((unsigned) k); x = isr ? g[d].r->rand((unsigned) k) : g[d].m->rand((unsigned) k); }
            for (int pass = 0; pass < (isr ? 3 : 2); pass++)
            {
                bool w = pass == 1; std::vector<double> v(k); { Sut q; for (size_t j = 0; j < k; j++) v[j] = pass == 2 ? g[d].r->randn() : w ? x.get(j) : m.get(j); }
                const char* what = w ? "uniform" : "Gaussian"; double mean = w ? 0.5 : 0, var = w ? 1.0 / 12 : 1, m4 = w ? 1.0 / 80 : 3, s = 0, s2 = 0, lag = 0, sq = 0;
                for (size_t j = 0; j < k; j++) { double a = v[j] - mean; s += a; s2 += a * a; if (j) { double b = v[j - 1] - mean; lag += a * b; sq += (a * a - var) * (b * b - var); } }
                double kd = (double) k; s /= kd; s2 /= kd; lag /= kd; sq /= kd;
                if (std::fabs(s) > 7 * std::sqrt(var) / root || std::fabs(s2 - var) > 8 * std::sqrt(m4 - var * var) / root) rt_fail("wrong-result", "%zu %s samples have mean %g and variance %g", k, what, s + mean, s2);
                if (std::fabs(lag) > 7 * var / root || std::fabs(sq) > 12 * (m4 - var * var) / root) rt_fail("wrong-result", "neighbours among %zu %s samples depend on each other (%g, %g)", k, what, lag, sq);
                std::sort(v.begin(), v.end()); double D = 0, at = 0;
                for (size_t j = 0; j < k; j++) { double F = w ? v[j] : 0.5 * std::erfc(-v[j] / std::sqrt(2.0)); double e = std::max(F - (double) j / kd, ((double) j + 1) / kd - F); if (e > D) { D = e; at = v[j]; } }
                if (D * root > 3.6) rt_fail("wrong-result", "%zu %s samples do not follow their distribution (%g off at %g)", k, what, D, at);
            }
            resync(d, 24 * (long) k + 2000, nm); Sut q; m = x = matrix<double>();
        }
        else rt_internal("unknown operation %s", nm);
    }
    void check_all(const char*) override { for (int i = 0; i < K; i++) if (g[i].live()) for (int j = 0; j < 3; j++) expect(word(i), (unsigned) g[i].ref(), "at the end", j); }
    uint64_t bytes_held() override { return 0; }
    void destroy_all() override { for (int i = 0; i < K; i++) kill(i); }
};
const char* OPS[] = { "g.new", "g.new", "g.default", "g.init", "g.init", "g.word", "g.word", "g.word", "g.mask", "g.mask", "g.rand", "g.rand", "g.mat", "g.split", "g.randn", "g.randn", "g.randn", "g.even", "g.bern", "g.int", "g.nonuni", "g.copy", "g.assign", "g.copy", "g.kill", "g.long" };
}
struct S : Scenario
{
    const char* id() override { return "C07"; }
    void gen(Plan& p, Rng& g) override
    {
        gen_heap(p, g);
        int nt = (int) g.range(1, 3); p.cfg["tasks"] = nt; p.cfg["threads"] = nt > 1; bool faults = g.chance(40); bool noise = g.chance(30);
        int n = (int) g.range(5, 30);
        for (int i = 0; i < n; i++)
        {
            Op o; o.task = (int) g.below(nt);
            if (noise && g.chance(15)) { o = calc_op(g, o.task); p.ops.push_back(o); continue; }
            o.name = g.below(250) == 0 ? "g.dist" : g.chance(2) ? "g.stat" : g.chance(3) ? "g.pairs" : OPS[g.below((long) (sizeof OPS / sizeof OPS[0]))]; for (int k = 0; k < 8; k++) o.a.push_back(g.below(64));
            if (faults && g.chance(25)) gen_fault(o, g);
            p.ops.push_back(o);
        }
        gen_schedule(p, g, nt, 30000);
    }
    int variants(const Plan& p) override { int nt = (int) p.c("tasks", 1); return nt > 1 ? nt + 1 : 1; }
    void exec(const Plan& p, int v) override
    {
        History h(p); h.md.faults = true; h.md.emit = true; h.noworld_faults();
        for (int t = 0; t < h.nt; t++) h.w[t] = new GenWorld(t);
        h.go(v - 1);
        rt_op_begin((int) p.ops.size(), "end");
        for (int t = 0; t < h.nt; t++) if (h.w[t]) h.w[t]->check_all("at the end");
        h.drop();
    }
    Verdict judge(const Plan&, std::vector<Run>& rs) override
    {
        for (auto& r : rs) { Verdict v = abnormal(r); if (!v.ok) return v; }
        return same_per_task(rs, "stream");
    }
    bool nontrivial(const Plan& p, std::vector<Run>& r) override { if (p.c("tasks", 1) > 1) return r[0].r->switches > 0; std::map<int, int> k; for (auto& o : p.ops) if (o.name.compare(0, 2, "g.") == 0) k[(int) o.mod(0, 3)]++; return k.size() > 1; }
    const char* nontrivial_rule() override { return "the draws of at least two generators interleave (by a forced preemption or in the history)"; }
};
Scenario* make_scenario() { return new S; }
