// C05: the allocation ledger balances under every interleaving and failure.
#include <susa.h>
#include "hist.h"
// vectors over the logging allocator, and direct use of the tracker
struct VecWorld : IWorld
{
    typedef std::vector<int, susa::allocator_log<int>> V;
    V* v[3] = {}; int64_t extra = 0; int task; std::vector<int> m[3];
    explicit VecWorld(int t) : task(t) {}
    void apply(const Op& op, const Mode& md) override
    {
        int d = op.mod(0, 3), a = op.mod(1, 3); Sut q;
        if (!v[d]) v[d] = new V; if (!v[a]) v[a] = new V;
        if (op.name == "t.add") { size_t n = (size_t) (1 + op.mod(3, 900)); if (op.mod(4, 12) == 0) n += (size_t) (1 + op.mod(5, 60)) << 30; susa::memory_tacker::instance().add(n); extra += (int64_t) n; return; }
        if (op.name == "t.sub") { int64_t n = extra ? 1 + op.mod(3, extra) : 0; susa::memory_tacker::instance().sub((size_t) n); extra -= n; return; }
        Outcome o = sut_run(op, md.faults, [&] {
            if (op.name == "v.push") { for (int i = 0; i < 1 + op.mod(3, 9); i++) { v[d]->push_back((int) op.arg(4)); SutOff f; m[d].push_back((int) op.arg(4)); } }
            else if (op.name == "v.copy") { *v[d] = *v[a]; SutOff f; m[d] = m[a]; }
            else if (op.name == "v.swap") { v[d]->swap(*v[a]); SutOff f; if (a != d) m[d].swap(m[a]); }
            else { V().swap(*v[d]); SutOff f; m[d].clear(); } });
        if (o.out == O_EXC || (o.out == O_BADALLOC && !o.fired)) rt_fail("unexpected-exception", "%s threw", op.name.c_str());
    }
    void check_all(const char* when) override { for (int i = 0; i < 3; i++) if (v[i]) { bool ok; { Sut q; ok = v[i]->size() == m[i].size(); for (size_t k = 0; ok && k < m[i].size(); k++) ok = (*v[i])[k] == m[i][k]; } if (!ok) rt_fail("corrupted-object", "%s: vector %d over the logging allocator lost its contents (%zu elements, expected %zu)", when, i, v[i]->size(), m[i].size()); } }
    uint64_t bytes_held() override { uint64_t b = (uint64_t) extra; for (auto* x : v) if (x) b += x->capacity() * sizeof(int); return b; }
    void destroy_all() override { Sut q; for (auto*& x : v) { delete x; x = nullptr; } if (extra) susa::memory_tacker::instance().sub((size_t) extra); extra = 0; for (auto& x : m) x.clear(); }
};
static IWorld* mkw(int kind, int t) { return kind == 30 ? new VecWorld(t) : make_world(kind, t); }
static uint64_t ledger() { Sut q; return susa::memory_tacker::instance().read(); }
struct S : Scenario
{
    const char* id() override { return "C05"; }
    void gen(Plan& p, Rng& g) override
    {
        gen_heap(p, g);
        static const int kinds[] = { 1, 4, 11, 30, 1, 4 };
        int nt = (int) g.range(1, 4); p.cfg["tasks"] = nt; p.cfg["threads"] = nt > 1;
        int kd[4]; for (int t = 0; t < nt; t++) p.cfg["kind" + std::to_string(t)] = kd[t] = kinds[g.below(6)];
        int n = (int) g.range(4, nt > 1 ? 24 : 40); bool faults = g.chance(60);
        static const char* VO[] = { "v.push", "v.push", "v.copy", "v.swap", "v.clear", "t.add", "t.sub", "t.add" };
        for (int i = 0; i < n; i++)
        {
            int t = (int) g.below(nt); Op o;
            if (kd[t] == 30) { o.task = t; o.name = VO[g.below(8)]; for (int k = 0; k < 6; k++) o.a.push_back(g.below(64)); }
            else o = gen_world_op(g, kd[t], t);
            if (faults && g.chance(30)) gen_fault(o, g);
            p.ops.push_back(o);
        }
        gen_scale(p, g, nt == 1); gen_schedule(p, g, nt, 9000);
    }
    void exec(const Plan& p, int) override
    {
        History h(p); h.md.faults = true;
        uint64_t base = ledger();
        if (base) rt_fail("ledger", "the ledger starts at %llu bytes", (unsigned long long) base);
        for (int r = 0; r < 2; r++)
        {
            for (int t = 0; t < h.nt; t++) h.w[t] = mkw((int) p.c(("kind" + std::to_string(t)).c_str()), t);
            auto expect = [&](const char* when) {
                uint64_t e = 0; for (int t = 0; t < h.nt; t++) e += h.w[t]->bytes_held();
                uint64_t l = ledger();
                if (l != e) rt_fail("ledger", "%s: the ledger says %llu bytes, the live objects hold %llu", when, (unsigned long long) l, (unsigned long long) e);
            };
            h.after = [&](int, int) {
                if (!h.threads) expect("after an operation");
                else { uint64_t l = ledger(); if (l >> 50) rt_fail("ledger", "the ledger went below zero (%lld)", (long long) l); }
            };
            h.go();
            rt_op_begin((int) p.ops.size(), "end");
            for (int t = 0; t < h.nt; t++) h.w[t]->check_all("at the end");
            expect("when all tasks were done");
            h.drop();
            uint64_t l = ledger();
            if (l) rt_fail("ledger", "%lld bytes stay in the ledger after every object was destroyed", (long long) l);
        }
    }
};
Scenario* make_scenario() { return new S; }
