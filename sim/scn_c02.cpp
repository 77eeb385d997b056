// C02: misuse is stopped (default build) or answered with a default (SUSA_NASSERT), and never touches foreign memory.
#include <susa.h>
#include "hist.h"
using namespace susa; typedef std::complex<double> cd;
#ifdef SUSA_NASSERT
static const int FLAVOUR = 0;
#else
static const int FLAVOUR = 1;
#endif
namespace {
struct Bad
{
    Rng g; explicit Bad(uint64_t s) : g(s) {}
    size_t n(long a, long b) { return (size_t) g.range(a, b); }
    matrix<double> mat(size_t r, size_t c) { matrix<double> m(r, c, 0); for (size_t i = 0; i < r * c; i++) m(i) = (double) g.range(-20, 20) / 4 + 0.1; return m; }
};
// every call breaks a documented precondition of the library; s >= 0: size of what must be empty (or -1: anything goes)
typedef long (*Fn)(Bad&);
long z_convmtx(Bad& b) { return (long) convmtx(b.mat(b.n(2, 4), b.n(2, 4)), b.n(2, 4)).size() * 0 - 1; }
long z_conv2(Bad& b) { return (long) conv(b.mat(2, b.n(2, 4)), b.mat(b.n(2, 3), 2)).size(); }
long z_lu(Bad& b) { size_t n = b.n(2, 4); matrix<double> a = b.mat(n, n + b.n(1, 2)); lu<double> q(a); return q.decompose() ? 1 : 0; }
long z_lup(Bad& b) { size_t n = b.n(2, 4); matrix<double> a = b.mat(n + b.n(1, 2), n); lup<double> q(a); return q.decompose() ? 1 : 0; }
long z_linsolve(Bad& b) { size_t n = b.n(2, 4); linsolve(b.mat(n, n + 1), b.mat(n + (size_t) b.g.below(2), 1)); return -1; }
long z_selleast(Bad& b) { size_t n = b.n(2, 5); return (long) select_least(b.mat(n, 1), (unsigned) (n + b.n(1, 3))).size(); }
long z_selmost(Bad& b) { size_t n = b.n(2, 5); return (long) select_most(b.mat(1, n), (unsigned) (n + b.n(1, 3))).size(); }
long z_sellim(Bad& b) { size_t n = b.n(2, 5); matrix<unsigned> l(2, 1, 0); return (long) select_limited_least(b.mat(n, 1), l, (unsigned) (n + b.n(1, 3))).size(); }
long z_findm(Bad& b) { matrix<double> m = b.mat(b.n(2, 4), b.n(2, 4)); double t = 1; susa::find(m, t); return -1; }
long z_sortm(Bad& b) { susa::sort(b.mat(b.n(2, 4), b.n(2, 4))); return -1; }
long z_sortim(Bad& b) { sort_indices(b.mat(b.n(2, 4), b.n(2, 4))); return -1; }
long z_sorte(Bad&) { return (long) susa::sort(matrix<double>()).size(); }
long z_dijkstra(Bad& b) { size_t n = b.n(2, 4); matrix<unsigned> w(n, n + 1, 1); return (long) dijkstra(w, 0u).size(); }
long z_dijsrc(Bad& b) { size_t n = b.n(2, 4); matrix<unsigned> w(n, n, 1); dijkstra(w, (unsigned) (n + b.n(0, 3))); return -1; }
long z_rrceven(Bad& b) { rrcosine r(4, 0.5, (int) b.n(1, 5) * 2); r.get(); return -1; }
long z_rrczero(Bad& b) { rrcosine r(4, 0.5, -(int) b.n(0, 3)); return (long) r.get().size(); }
long z_ccodek(Bad& b) { ccode c(2, (unsigned) b.n(2, 3), 2); return -1; }
long z_ccodem(Bad& b) { ccode c(2, 1, 32 + (unsigned) b.n(0, 3)); return -1; }
long z_ccode0(Bad&) { ccode c(2, 1, 0); return -1; }
long z_gen(Bad& b) { ccode c(2, 1, 2); c.set_generator(7, 2 + (unsigned) b.n(0, 5)); return -1; }
long z_ccoded(Bad& b) { ccode c; return (long) c.decode_bcjr(b.mat(4, 1), 1.0).size(); }
long z_chan(Bad& b) { matrix<double> t, p(2, 1, 1); p(1) = -1; matrix<double> e; channel<double> c(b.g.chance(50) ? t : p, e); return -1; }
long z_mlse(Bad& b) { matrix<double> t(1, 4, 1), p(2, 1, 1); p(1) = -1; channel<double> c(t, p); return (long) c.decode_mlse(b.mat(b.n(1, 5), 1)).size(); }
long z_reshape(Bad& b) { size_t n = b.n(2, 4); return (long) b.mat(n, n).reshape(n, n + 1).size(); }
long z_text(Bad& b) { static const char* T[] = { "[1 2;3]", "1 2 3;4 5", "[1;2 3]", "1,2\n3", "[1 2;3 4;5]" }; matrix<double> m; std::string s = T[b.n(0, 4)]; m = s; return (long) m.size(); }
long z_ctext(Bad& b) { static const char* T[] = { "[1 2;3]", "1 2 3;4 5", "[1;2 3]", "1,2\n3" }; matrix<int> m(T[b.n(0, 3)]); return (long) m.size(); }
long z_mm(Bad& b) { size_t n = b.n(2, 4); return (long) matmul(b.mat(n, n), b.mat(n + 1, 2)).size(); }
long z_mme(Bad& b) { matrix<double> e; return (long) (b.g.chance(50) ? matmul(e, b.mat(2, 2)) : matmul(b.mat(2, 2), e)).size(); }
long z_tre(Bad&) { matrix<double> e; return (long) transpose(e).size(); }
long z_inv(Bad& b) { size_t n = b.n(2, 4); inv(b.mat(n, n + 1)); return -1; }
long z_concat(Bad& b) { return (long) concat(b.mat(2, 3), b.mat(4, 5)).size(); }
long z_fft(Bad& b) { fft<double> f; matrix<double> e; return (long) (b.g.chance(50) ? f.radix2(e) : f.dft(e)).size(); }
long z_fft3(Bad& b) { fft<double> f; f.radix2(b.mat(b.n(1, 4) * 2 + 1, b.n(1, 2))); return -1; }
long z_svde(Bad&) { matrix<float> e, u, s, v; svd(e, u, s, v); return (long) (u.size() + s.size() + v.size()); }
long z_ranke(Bad&) { matrix<double> e; return (long) rank(e); }
long z_noencode(Bad&) { ccode c(2, 1, 2); c.set_generator(7, 0); c.set_generator(5, 1); matrix<uint8_t> e; return (long) c.encode(e).size(); }
long z_awgne(Bad& b) { matrix<double> e; matrix<cd> f; return (long) (b.g.chance(50) ? awgn(e, 3.0f).size() : awgn(f, 3.0f).size()); }
long z_index(Bad& b) { size_t n = b.n(1, 4); matrix<cd> m(n, n, cd(1, 1)); const matrix<cd>& c = m; cd v = b.g.chance(50) ? c(n * n + b.n(0, 2)) : c(n + b.n(0, 2), b.n(0, 3)); return v == cd(0, 0) ? -1 : 1; }
long z_down0(Bad& b) { return (long) downsample(b.mat(b.n(1, 4), b.n(1, 3)), 0).size(); }
long z_up0(Bad& b) { return (long) upsample(b.mat(b.n(1, 4), b.n(1, 3)), 0).size(); }
long z_downfar(Bad& b) { size_t n = b.n(1, 4); return (long) downsample(b.mat(n, b.n(1, 3)), n + b.n(1, 9)).size(); }
long z_randint0(Bad& b) { mt g((unsigned long) b.n(1, 99)); return (long) g.randint(0); }
long z_solvesize(Bad& b) { size_t n = b.n(2, 4); matrix<double> a = b.mat(n, n); for (size_t i = 0; i < n; i++) a(i, i) += 50; size_t k = n + b.n(1, 3); if (b.g.chance(50)) k = n - 1; return (long) (b.g.chance(50) ? linsolve(a, b.mat(k, 1)) : linsolve(a, b.mat(n, 2))).size(); }
long z_solveshape(Bad& b) { matrix<double> a = b.mat(4, 4); for (size_t i = 0; i < 4; i++) a(i, i) += 50; return (long) linsolve(a, b.mat(2, 2)).size(); }
long z_filter0(Bad& b) { matrix<double> e, v = b.mat(b.n(2, 5), 1); return (long) (b.g.chance(50) ? filter(e, v, v, 2) : filter(v, e, v, 2)).size(); }
long z_conve(Bad& b) { matrix<double> e, v = b.mat(b.n(2, 5), 1); return (long) (b.g.chance(50) ? conv(e, v) : conv(v, e)).size(); }
long z_krone(Bad& b) { matrix<double> e, v = b.mat(b.n(2, 5), 1); return (long) (b.g.chance(50) ? kron(e, v) : kron(v, e)).size(); }
long z_toepe(Bad& b) { matrix<double> e, v = b.mat(b.n(2, 5), 1); return (long) (b.g.chance(50) ? toeplitz(e) : toeplitz(e, v)).size(); }
long z_convm0(Bad& b) { return (long) convmtx(b.mat(b.n(2, 5), 1), 0).size(); }
long z_eye0(Bad&) { return (long) eye<double>(0).size(); }
long z_draw0(Bad& b) { rng r(7); mt g(7); switch (b.n(0, 6)) { case 0: return (long) r.rand(0u).size(); case 1: return (long) r.randn(0u).size(); case 2: return (long) r.bernoulli(0).size(); case 3: return (long) r.rand_mask(1, 0u).size(); case 4: return (long) g.rand(0u).size(); case 5: return (long) g.randn(0u).size(); default: return (long) g.rand_mask(1, 0u).size(); } }
long z_isie(Bad& b) { matrix<double> t = b.mat(1, 3), p(2, 1, 1), e; p(1) = -1; channel<double> c(t, p); return (long) c.decode_mlse(e).size(); }
long z_ccodenog(Bad&) { ccode c; return (long) c.encode(matrix<uint8_t>(4, 1, 1)).size(); }
struct E { const char* name; Fn f; bool stops; };
const E ES[] = { { "convmtx of a matrix", z_convmtx, true }, { "conv of two matrices", z_conv2, true }, { "LU of a rectangle", z_lu, true }, { "LUP of a rectangle", z_lup, true }, { "linsolve of a rectangle", z_linsolve, true },
    { "select_least of too many", z_selleast, true }, { "select_most of too many", z_selmost, true }, { "select_limited_least of too many", z_sellim, true }, { "find in a matrix", z_findm, true }, { "sort of a matrix", z_sortm, true }, { "sort_indices of a matrix", z_sortim, true },
    { "sort of nothing", z_sorte, true }, { "dijkstra of a rectangle", z_dijkstra, true }, { "dijkstra from nowhere", z_dijsrc, true }, { "rrcosine of even order", z_rrceven, true }, { "rrcosine of no order", z_rrczero, true }, { "ccode with k > 1", z_ccodek, true },
    { "ccode with 32 memories", z_ccodem, true }, { "ccode without memory", z_ccode0, true }, { "generator out of range", z_gen, true }, { "decoding without generators", z_ccoded, true }, { "channel without taps or symbols", z_chan, true }, { "equalising too little", z_mlse, true },
    { "impossible reshape", z_reshape, true }, { "ragged text", z_text, true }, { "ragged text constructor", z_ctext, true }, { "matmul of other sizes", z_mm, true }, { "matmul of nothing", z_mme, true }, { "transpose of nothing", z_tre, true }, { "inv of a rectangle", z_inv, true }, { "concat of other sizes", z_concat, false }, { "transform of nothing", z_fft, true }, { "radix-2 of an odd length", z_fft3, true }, { "svd of nothing", z_svde, true }, { "rank of nothing", z_ranke, true }, { "encoding nothing", z_noencode, true }, { "noise for nothing", z_awgne, true }, { "complex element out of range", z_index, true }, { "downsampling by 0", z_down0, true }, { "upsampling by 0", z_up0, true }, { "downsampling beyond the end", z_downfar, true }, { "random integer up to 0", z_randint0, true }, { "solving for another size", z_solvesize, true }, { "solving for a matrix", z_solveshape, true },
    { "filter without coefficients", z_filter0, true }, { "convolution with nothing", z_conve, false }, { "product with nothing", z_krone, true }, { "Toeplitz matrix of nothing", z_toepe, true }, { "convolution matrix of no length", z_convm0, true }, { "identity of no size", z_eye0, true }, { "drawing nothing", z_draw0, true }, { "equalising nothing", z_isie, true }, { "encoding without a code", z_ccodenog, true } };
const int EN = (int) (sizeof ES / sizeof ES[0]);
}
struct S : Scenario
{
    const char* id() override { return "C02"; }
    static bool misuse(const Op& o) { return o.name == "z" || o.name.compare(0, 2, "x.") == 0 || o.name.compare(0, 3, "ax.") == 0 || o.name.compare(0, 3, "bx.") == 0; }
    void gen(Plan& p, Rng& g) override
    {
        gen_heap(p, g); p.cfg["flavour"] = FLAVOUR;
        static const int kinds[] = { 0, 0, 1, 2, 3, 4, 5, 10, 10, 11, 20 };
        int nt = (int) g.range(1, 2); p.cfg["tasks"] = nt;
        int kd[2]; for (int t = 0; t < nt; t++) p.cfg["kind" + std::to_string(t)] = kd[t] = kinds[g.below(11)];
        int n = (int) g.range(1, FLAVOUR ? 12 : 30), pct = (int) g.range(20, 80);
        auto wrong = [&](int t) { Op o; if (g.chance(35)) { o.task = t; o.name = "z"; o.a = { g.below(EN), g.below(100000) }; } else o = gen_misuse_op(g, kd[t], t); return o; };
        auto good = [&](int t) { for (;;) { Op o = calc_op(g, t); std::string c = calc_name((int) o.mod(0, calc_count())); if (c != "fft-odd-length" && c != "empty") return o; } };   // those two break preconditions
        for (int i = 0; i < n; i++)
        {
            int t = (int) g.below(nt);
            p.ops.push_back(!FLAVOUR && g.chance(pct) ? wrong(t) : g.chance(12) ? good(t) : gen_world_op(g, kd[t], t));
        }
        if (!FLAVOUR) { gen_scale(p, g); return; }
        int t = (int) g.below(nt);
        if (g.chance(75)) p.ops.push_back(wrong(t));
        else if (g.chance(60)) { Op o = g.chance(30) ? good(t) : gen_world_op(g, kd[t], t); gen_fault(o, g); p.ops.push_back(o); }
        gen_scale(p, g);
    }
    void exec(const Plan& p, int) override
    {
        if (p.c("flavour") != FLAVOUR) rt_internal("plan for the other build");
        History h(p); h.md.misuse = true; h.md.faults = FLAVOUR; std::function<void()> f = [&] { steps(p, h); };
        rt_run(1, [](int, void* q) { (*(std::function<void()>*) q)(); }, &f, nullptr, 0, 0);
    }
    void steps(const Plan& p, History& h)
    {
        h.make();
        for (size_t i = 0; i < p.ops.size(); i++)
        {
            const Op& op = p.ops[i];
            if (op.name != "z") { h.one((int) i); if (misuse(op)) rt_count(1); continue; }
            const E& e = ES[op.mod(0, EN)]; rt_op_begin((int) i, e.name); long s = -1;
            Outcome o = sut_run(op, false, [&] { Bad b((uint64_t) op.arg(1)); s = e.f(b); });
            if (o.out != O_OK) rt_fail("unexpected-exception", "%s threw %s", e.name, o.what.c_str());
            if (s > 0) rt_fail("wrong-result", "%s gives a result", e.name);
            for (int t = 0; t < h.nt; t++) if (h.w[t]) h.w[t]->check_all(e.name);
            rt_op_end(); rt_count(1);
        }
        rt_op_begin((int) p.ops.size(), "end");
        for (int t = 0; t < h.nt; t++) if (h.w[t]) h.w[t]->check_all("at the end");
        h.drop();
    }
    Verdict judge(const Plan& p, std::vector<Run>& rs) override
    {
        RtResult* x = rs[0].r; int last = (int) p.ops.size() - 1;
        if (!FLAVOUR) return abnormal(rs[0]);
        bool wrong = last >= 0 && misuse(p.ops[last]), fired = x->f_nth || x->f_cap || x->f_outage || x->f_big;
        bool stopped = x->status == ST_ABORT || x->status == ST_EXIT;
        if (x->status == ST_OK)
        {
            bool must = wrong && (p.ops[last].name == "z" ? ES[p.ops[last].mod(0, EN)].stops : p.ops[last].name != "bx.out" && p.ops[last].name != "x.emptyfn");
            if (must) return bad("not-stopped", fmt("%s goes on past its assertion [op %d]", p.ops[last].name == "z" ? ES[p.ops[last].mod(0, EN)].name : p.ops[last].name.c_str(), last));
            return Verdict();
        }
        if (stopped && x->cur_op == last && (wrong || fired)) { x->user_cnt[wrong ? 0 : 2] = 1; return Verdict(); }
        return abnormal(rs[0]);
    }
    std::vector<std::string> counters() override { return { "misuses_stopped_by_an_assertion", "misuses_answered_with_a_default", "allocation_failures_stopped" }; }
    bool nontrivial(const Plan& p, std::vector<Run>& rs) override { for (auto& o : p.ops) if (misuse(o)) return true; return Scenario::nontrivial(p, rs); }
    const char* nontrivial_rule() override { return "a misuse was executed or an injected fault fired"; }
};
Scenario* make_scenario() { return new S; }
