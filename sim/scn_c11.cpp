// C11: the chronometer and the time stamp under clock faults and concurrent callers.
#include <susa.h>
#include "hist.h"
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <stdlib.h>
#include <set>
namespace {
struct Span { int64_t i, r; };               // simulated monotonic time at call and return
static std::vector<Span> g_tics;             // in order of the calls (harness only)
static const char* const TZS[] = { "UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NPT-5:45", "<-12>12", "<+14>-14", "CET-1CEST,M3.5.0,M10.5.0/3" };
static const long WALLS[] = { 1700000000, 0, 951782390, 1078012790, 1735689590, 2147483640, 4107542390, 1710054000 - 5, 1699163990, 1711846790, 946684795, 1, 253402214390, 1583020795, -1500000000 };
struct ClockWorld : IWorld
{
    int task; bool solo; int fd = -1; off_t seen = 0;
    ClockWorld(int t, bool s) : task(t), solo(s)
    {
        if (solo) { fd = memfd_create("out", 0); dup2(fd, 1); }
    }
    static int64_t amount(const Op& op, size_t k)
    {
        static const int64_t U[] = { 1000, 999999, 1000000, 1000001, 17000000, 999999999, 1000000000, 1500000000, 60000000000ll, 3600000000000ll, 86400000000000ll, 2592000000000000ll };
        return U[op.mod(k, 12)] * (1 + op.mod(k + 1, 3)) + op.arg(k + 1) * 1000;
    }
    // what a chronometer may report between i and r, given the tics so far
    static void check_elapsed(const char* nm, double e, int64_t i, int64_t r)
    {
        if (e != e || e < 0) rt_fail("wrong-result", "%s reports %g seconds", nm, e);
        std::string due;
        for (size_t a = 0; a < g_tics.size(); a++)
        {
            const Span& x = g_tics[a]; if (x.i > r) continue;
            bool old = false; for (auto& y : g_tics) if (x.r >= 0 && y.i > x.r && y.r >= 0 && y.r < i) old = true;
            if (old) continue;
            int64_t xr = x.r < 0 ? r : x.r; double lo = std::max<double>(0, (double) (i - xr)) / 1e9, hi = (double) (r - x.i) / 1e9, tol = 1.0001e-3 + 1e-10 * hi;
            if (e >= lo - tol && e <= hi + tol) return;
            due += fmt(" [%.6f, %.6f]", lo, hi);
        }
        rt_fail("wrong-elapsed", "%s reports %.6f seconds; elapsed since the last tic:%.200s", nm, e, due.c_str());
    }
    std::string printed()
    {
        std::cout.flush(); fflush(stdout); off_t n = lseek(fd, 0, SEEK_END); std::string s((size_t) (n - seen), 0); if (n > seen && pread(fd, &s[0], s.size(), seen) < 0) s.clear(); seen = n; return s;
    }
    void apply(const Op& op, const Mode& md) override
    {
        const std::string& n = op.name; const char* nm = n.c_str(); std::string t;
        if (n == "t.sleep") { int64_t v = amount(op, 0); rt_advance(v, v); rt_count(0); return; }
        if (n == "t.jump") { int64_t v = amount(op, 0); rt_advance(0, op.mod(2, 2) ? v : -v); rt_count(op.mod(2, 2) ? 1 : 2); return; }
        if (n == "t.suspend") { int64_t v = amount(op, 0); rt_advance(0, v); rt_count(3); return; }
        if (n == "t.zone") { if (solo) { setenv("TZ", TZS[op.mod(0, 7)], 1); tzset(); rt_count(5); } return; }
        bool stall = op.mod(3, 3) == 0; 
        if (stall) { int64_t v = amount(op, 4), w = op.mod(6, 3) == 0 ? -v : v; rt_stall(1 + op.mod(7, 24), v, w); }
        if (n == "t.tic")
        {
            size_t k = g_tics.size(); g_tics.push_back({ rt_mono(), -1 }); { Sut q; susa::tic(); } g_tics[k].r = rt_mono();
        }
        else if (n == "t.toc" || n == "t.print")
        {
            bool started = false; for (auto& x : g_tics) started |= x.r >= 0;
            if (!started) { rt_stall_end(); return; }
            bool pr = n == "t.print"; int64_t i = rt_mono(); double e = -1;
            if (pr && solo) printed();
            { Sut q; if (pr) susa::toc_print(); else e = susa::toc(); }
            int64_t r = rt_mono();
            if (pr)
            {
                if (!solo) { rt_stall_end(); return; }
                std::string s = printed(); size_t a = s.find_first_of("0123456789"); if (a == std::string::npos) rt_fail("wrong-result", "toc_print prints \"%.100s\"", s.c_str());
                if (a && s[a - 1] == '-') a--;
                std::string u = s.substr(a, s.find_first_not_of("0123456789.e+-", a) - a); e = strtod(u.c_str(), nullptr); double g = 1.1e-5 * e;       // six digits are printed
                int64_t gi = (int64_t) (g * 1e9); check_elapsed(nm, e, i - gi, r + gi);
            }
            else check_elapsed(nm, e, i, r);
        }
        else if (n == "t.stamp")
        {
            int s0 = rt_wall_segments() - 1; int64_t w0 = rt_wall(); std::string s;
            Outcome o = sut_run(op, md.faults, [&] { s = susa::timestamp(); });
            if (o.out == O_EXC || (o.out == O_BADALLOC && !o.fired)) rt_fail("unexpected-exception", "timestamp threw %s", o.what.c_str());
            if (o.fired) { { Sut q; std::string().swap(s); } rt_stall_end(); s0 = rt_wall_segments() - 1; w0 = rt_wall(); Sut q; s = susa::timestamp(); }
            std::set<std::string> ok; auto fl = [](int64_t w) { return w / 1000000000 - (w % 1000000000 < 0); };
            for (int k = s0; k < rt_wall_segments(); k++) { int64_t a, b; rt_wall_segment(k, &a, &b); if (k == s0) a = w0; for (int64_t c = fl(a); c <= fl(b) + (b < 0 && b % 1000000000 ? 1 : 0); c++) { time_t z = (time_t) c; tm v; localtime_r(&z, &v); ok.insert(fmt("%04d%02d%02d%02d%02d%02d", v.tm_year + 1900, v.tm_mon + 1, v.tm_mday, v.tm_hour, v.tm_min, v.tm_sec)); } }
            if (!ok.count(s)) { std::string due; for (auto& z : ok) due += " " + z; rt_fail("wrong-timestamp", "the time stamp is \"%.40s\"; the local time was%.120s", s.c_str(), due.c_str()); }
            { Sut q; std::string().swap(s); }
        }
        else rt_internal("unknown operation %s", nm);
        rt_stall_end();
    }
    void check_all(const char*) override {}
    uint64_t bytes_held() override { return 0; }
    void destroy_all() override {}
};
const char* OPS[] = { "t.tic", "t.tic", "t.toc", "t.toc", "t.toc", "t.toc", "t.print", "t.stamp", "t.stamp", "t.sleep", "t.sleep", "t.jump", "t.jump", "t.suspend", "t.zone" };
}
struct S : Scenario
{
    const char* id() override { return "C11"; }
    void gen(Plan& p, Rng& g) override
    {
        gen_heap(p, g);
        if (g.chance(12)) p.cfg["locale"] = g.range(1, 3);
        int nt = g.chance(50) ? 1 : (int) g.range(2, 3); p.cfg["tasks"] = nt; p.cfg["threads"] = nt > 1; bool faults = g.chance(20), noise = g.chance(15);
        p.cfg["tz"] = g.below(7); p.cfg["wall"] = g.below(15); p.cfg["wallns"] = g.chance(50) ? g.range(999990000, 999999999) : g.below(1000000000); p.cfg["mono"] = g.below(4);
        int n = (int) g.range(4, nt > 1 ? 24 : 40);
        for (int i = 0; i < n; i++)
        {
            Op o; o.task = (int) g.below(nt); if (noise && g.chance(15)) { o = calc_op(g, o.task); p.ops.push_back(o); continue; }
            o.name = OPS[g.below((long) (sizeof OPS / sizeof OPS[0]))]; for (int k = 0; k < 8; k++) o.a.push_back(g.below(1000));
            if (faults && o.name == "t.stamp" && g.chance(30)) gen_fault(o, g);
            p.ops.push_back(o);
        }
        gen_schedule(p, g, nt, 400);
    }
    void exec(const Plan& p, int) override
    {
        static const int64_t MONO[] = { 1000, 5000000000ll, 40ll * 86400 * 1000000000, 1000ll * 86400 * 1000000000 };
        setenv("TZ", TZS[p.c("tz") % 7], 1); tzset(); { time_t z = 0; tm v; localtime_r(&z, &v); }
        foreign_locale((int) p.c("locale", 0)); if (p.c("locale", 0)) rt_count(4);
        History h(p); h.md.faults = true; h.noworld_faults();
        for (int t = 0; t < h.nt; t++) h.w[t] = new ClockWorld(t, h.nt == 1);
        rt_clock(MONO[p.c("mono") % 4], WALLS[p.c("wall") % 15] * 1000000000 + p.c("wallns"));
        h.go(); h.drop();
    }
    std::vector<std::string> counters() override { return { "sleeps", "wall_clock_set_forwards", "wall_clock_set_backwards", "suspensions", "foreign_number_formats", "changes_of_the_time_zone", "", "", "", "", "", "", "", "", "", "stalls_inside_a_call" }; }
    bool nontrivial(const Plan&, std::vector<Run>& r) override { auto* x = r[0].r; return x->user_cnt[1] || x->user_cnt[2] || x->user_cnt[3] || x->user_cnt[15] || x->switches; }
    const char* nontrivial_rule() override { return "a clock jumped, the process was suspended, a call stalled or a forced preemption changed the running task"; }
};
Scenario* make_scenario() { return new S; }
