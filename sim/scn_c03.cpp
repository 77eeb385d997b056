// C03: results never depend on what memory held before.
#include "hist.h"
struct S : Scenario
{
    const char* id() override { return "C03"; }
    void gen(Plan& p, Rng& g) override
    {
        gen_heap(p, g);
        static const int kinds[] = { -1, -1, 0, 0, 1, 2, 3, 4, 5, 10, 11, 20 };
        int nt = (int) g.range(1, 2); p.cfg["tasks"] = nt;
        int kd[2]; for (int t = 0; t < nt; t++) p.cfg["kind" + std::to_string(t)] = kd[t] = kinds[g.below(12)];
        int n = (int) g.range(3, 24); p.cfg["vary"] = g.below(1000000);
        for (int i = 0; i < n; i++)
        {
            int t = (int) g.below(nt);
            if (kd[t] < 0 || g.chance(45)) p.ops.push_back(calc_op(g, t)); else p.ops.push_back(gen_world_op(g, kd[t], t));
        }
        gen_scale(p, g);
    }
    int variants(const Plan&) override { return 4; }
    void tweak(const Plan& p, int v, RtCfg& c) override
    {
        Rng g((uint64_t) p.c("vary") * 8 + (uint64_t) v); c.hseed = g.next() | 1;
        static const int fills[4][3] = { { 0, 0, 0 }, { 1, 3, 7 }, { 4, 2, 5 }, { 6, 5, 7 } };
        static const int paints[4][3] = { { 0, 0, 0 }, { 0xff, 256, 1 }, { 0xa5, 0x7f, 0xff }, { 1, 256, 3 } };
        c.fill = fills[v][g.below(3)]; c.paint = paints[v][g.below(3)]; c.recycle = v == 0 ? 0 : v == 3 ? 1 : (int) g.below(3); c.scribble = v == 3 ? 0 : (int) g.below(2);
    }
    void exec(const Plan& p, int) override
    {
        History h(p); h.md.emit = true; h.calc_emit = true;
        h.make(); h.go();
        rt_op_begin((int) p.ops.size(), "end");
        for (int t = 0; t < h.nt; t++) if (h.w[t]) h.w[t]->check_all("at the end");
        h.drop();
    }
    Verdict judge(const Plan& p, std::vector<Run>& rs) override
    {
        for (auto& r : rs) { Verdict v = abnormal(r); if (!v.ok) return v; }
        for (size_t v = 1; v < rs.size(); v++)
        {
            if (rs[v].obs.size() != rs[0].obs.size()) return bad("stale-memory", "the history makes other observations when memory held something else");
            for (size_t k = 0; k < rs[0].obs.size(); k++)
            {
                auto &a = rs[0].obs[k], &b = rs[v].obs[k];
                if (a.task != b.task || a.op != b.op || a.s != b.s)
                {
                    const Op* o = a.op >= 0 && a.op < (int) p.ops.size() ? &p.ops[a.op] : nullptr; std::string nm = !o ? "end" : o->name == "calc" ? calc_name((int) o->mod(0, calc_count())) : o->name;
                    return bad("stale-memory", fmt("operation %d (%s) gives %.160s in zeroed memory and %.160s in memory that held something else", a.op, nm.c_str(), a.s.c_str(), b.s.c_str()));
                }
            }
        }
        return Verdict();
    }
    bool nontrivial(const Plan&, std::vector<Run>& r) override { for (auto& x : r) if (x.r->allocs == 0) return false; return true; }
    const char* nontrivial_rule() override { return "the history allocates, so that the four executions differ in what the library's memory held before"; }
};
Scenario* make_scenario() { return new S; }
