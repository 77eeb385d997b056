// Histories of operations over worlds, single- or multi-threaded.
#pragma once
#include <set>
#include <locale>
#include "world.h"
#include "calc.h"
#include <functional>

// "calc": a[0] computation, a[1] seed.  "shared": the same over shared read-only objects.
inline Op calc_op(Rng& g, int task) { Op o; o.task = task; o.name = "calc"; o.a = { g.below(calc_count()), g.below(100000) }; return o; }
// "single": a[0] call, a[1] seed; the result of the call itself is judged
inline Op single_op(Rng& g, int task) { Op o; o.task = task; o.name = "single"; o.a = { g.below(single_count()), g.below(100000) }; return o; }
inline bool calc_ends_process(const Op& o)      // computations that hold a bitset
{
    if (o.name != "calc") return false;
    std::string n = calc_name((int) o.mod(0, calc_count()));
    return n == "find" || n == "dijkstra" || n == "bitset";
}
// now and then the containers of an execution are large (the history is then shorter)
inline void gen_scale(Plan& p, Rng& g, bool huge = true)
{
    uint64_t q = g.below(10000); int sc = q < 300 ? 1 : q < 500 ? 2 : q < 505 && huge ? 3 : 0;
    if (!sc) return;
    p.cfg["scale"] = sc; size_t keep = sc == 3 ? 6 : 16;
    if (p.ops.size() > keep) p.ops.erase(p.ops.begin(), p.ops.end() - (long) keep);
}
// the user's program may have chosen another number format for the process: a decimal comma, grouped digits
inline void foreign_locale(int k)
{
    struct Np : std::numpunct<char>
    {
        char d, t; std::string g; Np(char d_, char t_, const char* g_) : d(d_), t(t_), g(g_) {}
        char do_decimal_point() const override { return d; } char do_thousands_sep() const override { return t; } std::string do_grouping() const override { return g; }
    };
    if (k == 1) std::locale::global(std::locale(std::locale::classic(), new Np(',', '.', "\3")));
    if (k == 2) std::locale::global(std::locale(std::locale::classic(), new Np('.', ',', "\3")));
    if (k == 3) std::locale::global(std::locale(std::locale::classic(), new Np(',', ' ', "\1")));
}
struct History
{
    const Plan& p; Mode md; bool calc_emit = false; bool calc_clean = true;
    int nt; bool threads; IWorld* w[MAXT] = {}; std::vector<int> mine[MAXT];
    std::function<void(int, int)> after;           // (task, op)
    explicit History(const Plan& p_) : p(p_)
    {
        g_scale = (int) p.c("scale", 0); nt = (int) p.c("tasks", 1); if (nt > MAXT) nt = MAXT; threads = p.c("threads", 0) && nt > 1;
    }
    void one(int i)
    {
        const Op& op = p.ops[i]; int t = op.task % nt;
        rt_op_begin(i, op.name == "single" ? single_name((int) op.mod(0, single_count())) : op.name == "calc" ? calc_name((int) op.mod(0, calc_count())) : op.name == "shared" ? calc_shared_name((int) op.mod(0, calc_shared_count())) : op.name.c_str());
        if (op.name == "single") single(op);
        else if (op.name == "calc" || op.name == "shared") calc(i, op);
        else { Mode m = md; m.opidx = i; w[t]->apply(op, m); }
        rt_op_end();
        if (after) after(t, i);
    }
    void calc(int i, const Op& op)
    {
        bool sh = op.name == "shared"; int k = (int) op.mod(0, sh ? calc_shared_count() : calc_count()); uint64_t seed = (uint64_t) op.arg(1);
        auto go = [&](Dump& d) { if (sh) calc_shared_run(k, seed, d); else calc_run(k, seed, d); };
        if (md.faults && calc_faults && op.fk != F_NONE)
        {
            Dump a, b, c;
            Outcome o0 = sut_run(op, false, [&] { go(a); });
            if (o0.out != O_OK) rt_fail("unexpected-exception", "computation threw %s", o0.what.c_str());
            long live = rt_live_blocks();
            Outcome o = sut_run(op, true, [&] { go(b); });
            if (o.out == O_EXC) rt_fail("unexpected-exception", "after an allocation failure the computation threw %s", o.what.c_str());
            if (o.out == O_BADALLOC && !o.fired) rt_fail("unexpected-exception", "bad_alloc although no allocation failed");
            if (!o.fired && !a.same(b)) rt_fail("wrong-result", "the same computation gives %s and then %s", a.text().c_str(), b.text().c_str());
            if (rt_live_blocks() > live)
            {
                // something stayed allocated: a cache would not grow again
                long l2 = rt_live_blocks(); Dump e; sut_run(op, true, [&] { go(e); }); 
                if (rt_live_blocks() > l2) { char q[200]; rt_describe_live(q, sizeof q, 0); rt_fail("leak", "memory stays allocated after a failed allocation (%ld blocks: %s)", rt_live_blocks() - live, q); }
            }
            Outcome o2 = sut_run(op, false, [&] { go(c); });
            if (o2.out != O_OK || !a.same(c)) rt_fail("wrong-result", "after an allocation failure the computation gives %s instead of %s", c.text().c_str(), a.text().c_str());
            if (calc_emit) { std::string t = a.text(); rt_obs(op.task, i, t.data(), t.size()); }
            return;
        }
        Dump a; Outcome o = sut_run(op, false, [&] { go(a); });
        if (o.out != O_OK) rt_fail("unexpected-exception", "computation threw %s", o.what.c_str());
        if (calc_emit) { std::string t = a.text(); rt_obs(op.task, i, t.data(), t.size()); }
    }
    void single(const Op& op)
    {
        int k = (int) op.mod(0, single_count()); uint64_t seed = (uint64_t) op.arg(1); Op quiet = op; quiet.fk = F_NONE;
        Dump a, b, c; Single ra, rb, rc;
        Outcome o = sut_run(quiet, false, [&] { single_run(k, seed, a, nullptr, ra); });
        if (o.out != O_OK || ra.refused) rt_fail("unexpected-exception", "the call threw %s", ra.refused ? "bad_alloc although no allocation failed" : o.what.c_str());
        long live = rt_live_blocks();
        o = sut_run(quiet, false, [&] { single_run(k, seed, b, &op, rb); });
        if (o.out != O_OK) rt_fail("unexpected-exception", "after an allocation failure the call threw %s", o.what.c_str());
        if (!rb.fired && rb.refused) rt_fail("unexpected-exception", "bad_alloc although no allocation failed");
        if (!rb.fired && !a.same(b)) rt_fail("wrong-result", "the same call gives %s and then %s", a.text().c_str(), b.text().c_str());
        if (rb.fired && !rb.refused && !rb.empty && !a.same(b)) rt_fail("half-built", "a failed allocation goes unreported: the call gives %s instead of %s", b.text().c_str(), a.text().c_str());
        // a part that is missing reports the failure; it does not excuse another part that is there and wrong
        if (rb.fired && !rb.refused && !rb.no) for (int k = 0; k < rb.parts && k < ra.parts; k++) if (!rb.gone[k] && rb.part[k] != ra.part[k]) rt_fail("half-built", "a failed allocation leaves a wrong part %d of the result: the call gives %s instead of %s", k + 1, b.text().c_str(), a.text().c_str());
        if (rb.fired) rt_count(rb.refused ? 1 : rb.empty ? 2 : 3);
        if (rt_live_blocks() > live)
        {
            long l2 = rt_live_blocks(); Dump e; Single re; sut_run(quiet, false, [&] { single_run(k, seed, e, &op, re); });
            if (rt_live_blocks() > l2) { char q[200]; rt_describe_live(q, sizeof q, 0); rt_fail("leak", "memory stays allocated after a failed allocation (%ld blocks: %s)", rt_live_blocks() - live, q); }
        }
        o = sut_run(quiet, false, [&] { single_run(k, seed, c, nullptr, rc); });
        if (o.out != O_OK || !a.same(c)) rt_fail("wrong-result", "after an allocation failure the call gives %s instead of %s", c.text().c_str(), a.text().c_str());
    }
    bool calc_faults = true;
    void noworld_faults() { calc_faults = false; }
    struct Ctx { History* h; int solo; };
    static void body(int t, void* c)
    {
        Ctx* x = (Ctx*) c; History* h = x->h;
        if (h->threads && x->solo < 0) { for (int i : h->mine[t]) h->one(i); return; }
        for (size_t i = 0; i < h->p.ops.size(); i++) if (x->solo < 0 || h->p.ops[i].task % h->nt == x->solo) h->one((int) i);
    }
    std::function<IWorld*(int)> maker;
    void make() { for (int t = 0; t < nt; t++) w[t] = maker ? maker(t) : p.c(("kind" + std::to_string(t)).c_str(), -1) >= 0 ? make_world((int) p.c(("kind" + std::to_string(t)).c_str()), t) : nullptr; }
    void drop() { for (int t = 0; t < nt; t++) if (w[t]) { w[t]->destroy_all(); delete w[t]; w[t] = nullptr; } }
    // solo >= 0: only that task's operations, alone
    void go(int solo = -1)
    {
        for (auto& v : mine) v.clear();
        for (size_t i = 0; i < p.ops.size(); i++) mine[p.ops[i].task % nt].push_back((int) i);
        Ctx c{ this, solo };
        rt_run(threads && solo < 0 ? nt : 1, body, &c, p.sw.data(), (int) p.sw.size(), (int) p.c("first", 0));
    }
    // the history twice; whatever is live at the end of the second round and was not at the end of the first has leaked
    void rounds(const std::function<void()>& quiet = nullptr)
    {
        long live[2] = { 0, 0 }; long serial = 0;
        for (int r = 0; r < 2; r++)
        {
            make(); serial = rt_serial();
            go();
            rt_op_begin((int) p.ops.size(), "end");
            for (int t = 0; t < nt; t++) if (w[t]) w[t]->check_all("at the end");
            if (quiet) quiet();
            drop();
            if (quiet) quiet();
            live[r] = rt_live_blocks();
        }
        if (live[1] > live[0]) { char q[300]; rt_describe_live(q, sizeof q, serial); rt_fail("leak", "%ld blocks stay allocated after every object was destroyed: %s", live[1] - live[0], q); }
    }
};
inline void gen_fault(Op& o, Rng& g)
{
    switch (g.below(4))
    {
    case 0: case 1: o.fk = F_NTH; o.fa = g.chance(60) ? g.below(3) : g.below(14); o.fb = g.chance(70) ? 1 : g.range(1, 4); break;
    case 2: { static const long cap[] = { 1, 8, 16, 32, 64, 100, 128, 200, 256, 512 }; o.fk = F_CAP; o.fa = cap[g.below(10)]; o.fb = 0; } break;
    default: o.fk = F_OUTAGE; o.fa = o.fb = 0; break;
    }
}

// variant 0 ran all tasks, variant t + 1 task t alone: every task must have observed the same
inline Verdict same_per_task(std::vector<Run>& rs, const char* kind)
{
    if (rs.size() < 2) return Verdict();
    std::map<std::pair<int, int>, std::string> a; for (auto& o : rs[0].obs) a[{ o.task, o.op }] += o.s + "|";
    for (size_t v = 1; v < rs.size(); v++)
    {
        std::map<std::pair<int, int>, std::string> b; for (auto& o : rs[v].obs) b[{ o.task, o.op }] += o.s + "|";
        int task = (int) v - 1; std::set<std::pair<int, int>> keys; for (auto& x : b) keys.insert(x.first);
        for (auto& x : a) if (x.first.first == task) keys.insert(x.first);
        for (auto& k : keys)
        {
            std::string x = a.count(k) ? a[k] : "nothing", y = b.count(k) ? b[k] : "nothing";
            if (x == y) continue;
            // a failed request that did not fail alone, or failed elsewhere: the task's stream continues from another place
            if (x.find('\x01') != std::string::npos || y.find('\x01') != std::string::npos) break;
            return bad(kind, fmt("operation %d of task %d gives %.150s when the other tasks run, and %.150s alone", k.second, k.first, x.c_str(), y.c_str()));
        }
    }
    return Verdict();
}
