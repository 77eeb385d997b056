// C01: a failed memory request is contained.
#include "hist.h"
struct S : Scenario
{
    const char* id() override { return "C01"; }
    void gen(Plan& p, Rng& g) override
    {
        gen_heap(p, g);
        static const int kinds[] = { 0, 0, 1, 2, 3, 4, 5, 10, 10, 11, 20 };
        int nt = g.chance(60) ? 1 : 2; p.cfg["tasks"] = nt;
        int kd[2]; for (int t = 0; t < nt; t++) p.cfg["kind" + std::to_string(t)] = kd[t] = kinds[g.below(11)];
        int n = (int) g.range(6, 40); int pct = (int) g.range(10, 60); int calcs = g.chance(40) ? (int) g.range(10, 70) : 0;
        for (int i = 0; i < n; i++)
        {
            int t = (int) g.below(nt); Op o;
            if (g.chance(calcs)) o = g.chance(60) ? single_op(g, t) : calc_op(g, t);
            else if (kd[t] < 10 && g.chance(4)) { o = gen_world_op(g, kd[t], t); o.name = "m.big"; }
            else if (kd[t] >= 10 && o.name.compare(0, 2, "a.") == 0 && g.chance(3)) o.name = "a.big";
            else o = gen_world_op(g, kd[t], t);
            bool ends = is_bitset_op(o.name) || calc_ends_process(o);
            if (g.chance(pct) && (!ends || i + 1 == n || g.chance(8))) gen_fault(o, g);
            p.ops.push_back(o);
        }
        gen_scale(p, g);
    }
    void exec(const Plan& p, int) override { History h(p); h.md.faults = true; h.rounds(); }
    Verdict judge(const Plan& p, std::vector<Run>& rs) override
    {
        for (auto& r : rs)
        {
            RtResult* x = r.r;
            if (x->status == ST_EXIT && x->code != 0 && x->cur_op >= 0 && x->cur_op < (int) p.ops.size())
            {
                const Op& o = p.ops[x->cur_op];
                if (o.fk != F_NONE && (x->f_nth || x->f_cap || x->f_outage || x->f_big) && (is_bitset_op(o.name) || calc_ends_process(o))) { x->user_cnt[0]++; continue; }
            }
            Verdict v = abnormal(r); if (!v.ok) return v;
        }
        return Verdict();
    }
    std::vector<std::string> counters() override { return { "process ended by memory<>", "single calls that refused", "single calls that returned nothing", "single calls that survived a failed request" }; }
    bool nontrivial(const Plan&, std::vector<Run>& r) override { auto* x = r[0].r; return x->f_nth || x->f_cap || x->f_outage || x->f_big; }
    const char* nontrivial_rule() override { return "at least one memory request was made to fail inside the library"; }
};
Scenario* make_scenario() { return new S; }
