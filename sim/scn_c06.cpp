// C06: tasks that use the library at the same time do not affect each other.
#include "hist.h"
struct S : Scenario
{
    const char* id() override { return "C06"; }
    void gen(Plan& p, Rng& g) override
    {
        gen_heap(p, g);
        static const int kinds[] = { -1, -1, 0, 1, 2, 3, 4, 5, 10, 11, 20 };
        int nt = (int) g.range(2, 4); p.cfg["tasks"] = nt; p.cfg["threads"] = 1;
        int kd[4]; for (int t = 0; t < nt; t++) p.cfg["kind" + std::to_string(t)] = kd[t] = kinds[g.below(11)];
        int style = (int) g.below(4); int n = (int) g.range(nt, style == 0 ? 6 : 20);
        // style 1: every task runs the same computation, 2: every task reads the same shared objects
        Op same; if (style == 1) same = calc_op(g, 0); if (style == 2) { same.name = "shared"; same.a = { g.below(calc_shared_count()), g.below(100000) }; }
        p.cfg["shared"] = 1;
        for (int i = 0; i < n; i++)
        {
            int t = (int) g.below(nt); Op o;
            if ((style == 1 || style == 2) && (i < nt || g.chance(60))) { o = same; o.task = i < nt ? i : t; if (style == 2 || g.chance(50)) o.a[1] = g.below(100000); p.ops.push_back(o); continue; }
            int r = (int) g.below(100);
            if (r < 30) { o.task = t; o.name = "shared"; o.a = { g.below(calc_shared_count()), g.below(100000) }; }
            else if (r < 65 || kd[t] < 0) o = calc_op(g, t);
            else o = gen_world_op(g, kd[t], t);
            p.ops.push_back(o);
        }
        if (style != 1 && style != 2) gen_scale(p, g, false);
        gen_schedule(p, g, nt, style == 0 ? 4000 : 20000);
    }
    int variants(const Plan& p) override { return (int) p.c("tasks", 1) > 1 ? (int) p.c("tasks", 1) + 1 : 1; }
    void exec(const Plan& p, int v) override
    {
        History h(p); h.md.emit = true; h.calc_emit = true;
        calc_shared_make(); Dump a, b; calc_shared_check(a);
        h.make(); h.go(v - 1);
        rt_op_begin((int) p.ops.size(), "end");
        for (int t = 0; t < h.nt; t++) if (h.w[t]) h.w[t]->check_all("at the end");
        calc_shared_check(b); if (!a.same(b)) rt_fail("shared-changed", "an object that tasks only read has changed");
        h.drop(); calc_shared_free();
    }
    Verdict judge(const Plan&, std::vector<Run>& rs) override
    {
        for (auto& r : rs) { Verdict v = abnormal(r); if (!v.ok) return v; }
        return same_per_task(rs, "interference");
    }
    bool nontrivial(const Plan&, std::vector<Run>& r) override { return r[0].r->switches > 0; }
    const char* nontrivial_rule() override { return "at least one forced preemption handed the processor to another task inside the library"; }
};
Scenario* make_scenario() { return new S; }
