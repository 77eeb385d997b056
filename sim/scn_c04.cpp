// C04: value semantics of the containers over operation histories.
#include "hist.h"
struct S : Scenario
{
    const char* id() override { return "C04"; }
    void gen(Plan& p, Rng& g) override
    {
        gen_heap(p, g); if (p.cfg["recycle"] == 0 && g.chance(50)) p.cfg["recycle"] = 2;
        static const int kinds[] = { 0, 0, 1, 2, 3, 4, 5, 10, 10, 11, 20, 20 };
        int nt = (int) g.range(1, 3); p.cfg["tasks"] = nt;
        int kd[3]; for (int t = 0; t < nt; t++) p.cfg["kind" + std::to_string(t)] = kd[t] = kinds[g.below(12)];
        int n = (int) g.range(10, 70);
        for (int i = 0; i < n; i++) { int t = (int) g.below(nt); p.ops.push_back(gen_world_op(g, kd[t], t)); }
        gen_scale(p, g);
    }
    void exec(const Plan& p, int) override { History h(p); h.rounds(); }
    bool nontrivial(const Plan& p, std::vector<Run>&) override
    {
        // a copy/move/assignment and adversarial memory
        bool cp = false; for (auto& o : p.ops) if (o.name.find("copy") != std::string::npos || o.name.find("move") != std::string::npos || o.name.find("assign") != std::string::npos || o.name.find("byval") != std::string::npos) cp = true;
        return cp && (p.c("recycle") != 0 || p.c("fill") != 0);
    }
    const char* nontrivial_rule() override { return "the history copies, moves or assigns at least once while the heap recycles blocks or hands out non-zero memory"; }
};
Scenario* make_scenario() { return new S; }
