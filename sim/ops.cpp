#include "world.h"
int g_scale = 0;
IWorld* make_world(int kind, int task)
{
    switch (kind)
    {
    case 0: return mk_w0(task); case 1: return mk_w1(task); case 2: return mk_w2(task); case 3: return mk_w3(task); case 4: return mk_w4(task); case 5: return mk_w5(task);
    case 10: return mk_w10(task); case 11: return mk_w11(task); default: return mk_w20(task);
    }
}
bool is_bitset_op(const std::string& n) { return n.compare(0, 2, "b.") == 0 || n.compare(0, 3, "bx.") == 0; }
static const char* MO[] = { "m.ctor", "m.ctort", "m.empty", "m.ctoru", "m.ctorut", "m.copy", "m.copy", "m.move", "m.move", "m.assign", "m.assign", "m.assign", "m.assignmv", "m.assignmv", "m.text", "m.ctext", "m.resize", "m.resize",
    "m.reshape", "m.set", "m.set", "m.wild", "m.wild", "m.setall", "m.setrow", "m.setcol", "m.swaprows", "m.swapcols", "m.row", "m.col", "m.vec", "m.left", "m.right", "m.mid", "m.shrink", "m.add", "m.sub", "m.mul", "m.div", "m.acc", "m.dec",
    "m.sadd", "m.ssub", "m.smul", "m.sdiv", "m.transpose", "m.matmul", "m.concat", "m.flip", "m.cmp", "m.warith", "m.byval", "m.conv", "m.conv", "m.kill" };
static const char* AO[] = { "a.ctor", "a.ctor", "a.empty", "a.copy", "a.copy", "a.move", "a.assign", "a.assign", "a.assignmv", "a.clone", "a.clone", "a.set", "a.set", "a.const", "a.kill" };
static const char* BO[] = { "b.ctor", "b.ctor", "b.copy", "b.copy", "b.move", "b.assign", "b.assign", "b.assignmv", "b.kill", "b.set", "b.push", "b.reset", "b.setall", "b.clear", "b.pop", "b.drain", "b.set", "b.push", "b.wide" };
static const char* MX[] = { "x.get", "x.gete", "x.ref", "x.refe", "x.row", "x.col", "x.vec", "x.setrow", "x.setcol", "x.swap", "x.cut", "x.shrink", "x.reshape", "x.mismatch", "x.matmul", "x.emptyget", "x.emptycut", "x.emptymm", "x.emptyop", "x.emptyfn", "x.zero" };
static const char* AX[] = { "ax.lin", "ax.coord", "ax.many", "ax.empty" };
static const char* BX[] = { "bx.out" };
template <size_t N> static const char* any(Rng& g, const char* (&t)[N]) { return t[g.below((long) N)]; }
static Op mk(Rng& g, int task, const char* n) { Op o; o.task = task; o.name = n; for (int i = 0; i < 8; i++) o.a.push_back(g.below(64)); return o; }
Op gen_world_op(Rng& g, int kind, int task) { return mk(g, task, kind < 10 ? any(g, MO) : kind < 20 ? any(g, AO) : any(g, BO)); }
Op gen_misuse_op(Rng& g, int kind, int task) { Op o = mk(g, task, kind < 10 ? any(g, MX) : kind < 20 ? any(g, AX) : any(g, BX)); o.a[3] = g.below(5000); return o; }
