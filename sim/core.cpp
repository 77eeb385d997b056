#include "core.h"
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>

std::string fmt(const char* f, ...)
{
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
std::string hexd(double d) { uint64_t u; if (d != d) return "nan"; memcpy(&u, &d, 8); return fmt("%016llx", (unsigned long long) u); }

std::string Plan::text() const
{
    std::ostringstream o;
    o << "plan 1\nprop " << prop << "\nseed " << seed << "\nindex " << index << "\n";
    for (auto& k : cfg) o << "cfg " << k.first << " " << k.second << "\n";
    for (auto& p : ops)
    {
        o << "op " << p.task << " " << p.name;
        for (long v : p.a) o << " " << v;
        if (p.fk) o << " ! " << (p.fk == F_NTH ? "nth" : p.fk == F_CAP ? "cap" : "outage") << " " << p.fa << " " << p.fb;
        o << "\n";
    }
    for (auto& s : sw) o << "sw " << s.unit << " " << s.gap << " " << s.pick << "\n";
    return o.str();
}
bool Plan::parse(const std::string& t, Plan& p)
{
    std::istringstream in(t); std::string line;
    while (std::getline(in, line))
    {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line); std::string w; l >> w;
        if (w == "plan") continue;
        if (w == "prop") l >> p.prop;
        else if (w == "seed") l >> p.seed;
        else if (w == "index") l >> p.index;
        else if (w == "cfg") { std::string k; long v; l >> k >> v; p.cfg[k] = v; }
        else if (w == "op")
        {
            Op o; l >> o.task >> o.name; std::string x;
            while (l >> x)
            {
                if (x == "!") { std::string k; l >> k >> o.fa >> o.fb; o.fk = k == "nth" ? F_NTH : k == "cap" ? F_CAP : F_OUTAGE; }
                else o.a.push_back(atol(x.c_str()));
            }
            p.ops.push_back(o);
        }
        else if (w == "sw") { RtSwitch s; l >> s.unit >> s.gap >> s.pick; p.sw.push_back(s); }
        else return false;
    }
    return true;
}
RtCfg Plan::rtcfg() const
{
    RtCfg r;
    r.fill = c("fill", 0); r.recycle = c("recycle", 0); r.scribble = c("scribble", 0); r.paint = c("paint", -1);
    r.hseed = c("hseed", 1); r.budget = c("budget", 400000000); r.race = c("race", 1);
    return r;
}
Verdict bad(const std::string& k, const std::string& m) { Verdict v; v.ok = false; v.kind = k; v.msg = m; return v; }
Verdict abnormal(const Run& r)
{
    RtResult* x = r.r;
    std::string at = fmt(" [task %d op %d %s]", x->cur_task, x->cur_op, x->cur_name);
    switch (x->status)
    {
    case ST_OK: return Verdict();
    case ST_VIOLATION: return bad(x->kind, x->msg + at);
    case ST_ABORT: return bad("abort", std::string("the process aborted: ") + x->msg + at);
    case ST_EXIT: return bad("exit", fmt("the process exited with status %d", x->code) + at);
    case ST_SIGNAL: return bad("crash", x->msg + at);
    case ST_TERMINATE: return bad("terminate", "an exception escaped where none may (std::terminate)" + at);
    case ST_HANG: return bad("hang", x->msg + at);
    default: return bad("internal", fmt("status %d %s", x->status, x->msg));
    }
}
Verdict Scenario::judge(const Plan&, std::vector<Run>& rs)
{
    for (auto& r : rs) { Verdict v = abnormal(r); if (!v.ok) return v; }
    return Verdict();
}
bool Scenario::nontrivial(const Plan&, std::vector<Run>& rs)
{
    for (auto& r : rs) if (r.r->switches || r.r->f_nth || r.r->f_cap || r.r->f_outage || r.r->f_big) return true;
    return false;
}

void gen_heap(Plan& p, Rng& g)
{
    p.cfg["fill"] = g.below(8);
    p.cfg["recycle"] = g.below(3);
    p.cfg["scribble"] = g.below(2);
    long k = g.below(5);
    p.cfg["paint"] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? 0xa5 : k == 3 ? 256 : 1;
    p.cfg["hseed"] = g.below(1000000) + 1;
}
void gen_schedule(Plan& p, Rng& g, int ntasks, long est)
{
    if (ntasks < 2) return;
    p.cfg["first"] = g.below(ntasks);
    int style = g.below(5);
    int n = style == 0 ? g.range(1, 3) : style == 1 ? g.range(4, 20) : g.range(20, 160);
    for (int i = 0; i < n; i++)
    {
        RtSwitch s; s.unit = g.chance(40) ? 1 : 0; s.pick = g.below(8);
        if (s.unit == 1) s.gap = style == 4 ? g.range(1, 2) : g.range(1, 12);
        else switch (style)
        {
        case 0: s.gap = g.range(1, est); break;
        case 1: s.gap = g.range(1, est / 3 + 1); break;
        case 2: s.gap = g.range(1, 60); break;
        case 3: s.gap = g.chance(50) ? g.range(1, 8) : g.range(1, 800); break;
        default: s.gap = g.range(1, 6); break;
        }
        p.sw.push_back(s);
    }
}

// ------------------------------------------------------------------ running
static RtResult* g_shared[16];
static Scenario* g_scn;

static void run_variant(const Plan& p, int v, Run& out)
{
    RtResult* r = g_shared[v];
    memset(r, 0, sizeof(RtResult) - OBS_CAP);
    r->obs_len = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0)
    {
        int fd = open("/dev/null", O_RDWR);
        if (!getenv("SIM_VERBOSE")) { dup2(fd, 1); dup2(fd, 2); }
        RtCfg c = p.rtcfg();
        g_scn->tweak(p, v, c);
        rt_child_init(c, r);
        g_scn->exec(p, v);
        rt_finish();
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (r->status == ST_NONE)
    {
        if (WIFSIGNALED(st))
        {
            r->status = ST_SIGNAL; r->code = WTERMSIG(st);
            if (r->code == SIGKILL || r->code == SIGXCPU || r->code == SIGALRM) r->status = ST_HANG;
            snprintf(r->msg, sizeof r->msg, "the process was ended by signal %d", WTERMSIG(st));
        }
        else { r->status = ST_EXIT; r->code = WEXITSTATUS(st); }
    }
    if (r->status == ST_INTERNAL) { fprintf(stderr, "simulator error: %s\n%s", r->msg, p.text().c_str()); exit(3); }
    out.r = r; out.obs.clear();
    size_t o = 0;
    while (o + 12 <= r->obs_len)
    {
        int32_t h[3]; memcpy(h, r->obs + o, 12);
        out.obs.push_back({ h[0], h[1], std::string(r->obs + o + 12, h[2]) });
        o += 12 + h[2];
    }
}
struct Totals { double sim = 0; uint64_t steps = 0, allocs = 0, nth = 0, cap = 0, outage = 0, big = 0, sw = 0, races = 0, clk = 0, trace = 0, inter = 0, state = 0, procs = 0, stops = 0, dirty = 0, reused = 0, scrib = 0, painted = 0; uint64_t user[16] = {}; };
static Verdict run_plan(const Plan& p, Totals& t, std::vector<Run>& rs)
{
    int n = g_scn->variants(p);
    rs.assign(n, Run());
    t = Totals(); t.trace = 7;
    for (int i = 0; i < n; i++)
    {
        run_variant(p, i, rs[i]);
        RtResult* r = rs[i].r;
        t.steps += r->steps; t.sim += r->sim_ns; t.allocs += r->allocs; t.nth += r->f_nth; t.cap += r->f_cap; t.outage += r->f_outage; t.big += r->f_big; t.dirty += r->m_dirty; t.reused += r->m_reused; t.scrib += r->m_scribbled; t.painted += r->m_painted;
        t.sw += r->switches; t.races += r->races_checked; t.clk += r->clock_reads; t.procs++; if (r->status != ST_OK) t.stops++;
        t.trace = t.trace * 1000003 ^ r->trace_hash ^ (uint64_t) r->status << 50; t.inter = t.inter * 31 ^ r->inter_hash; t.state = t.state * 31 ^ r->state_hash ^ r->allocs * 7919 ^ r->steps;
    }
    Verdict v = g_scn->judge(p, rs);
    for (auto& r : rs) for (int k = 0; k < 16; k++) t.user[k] += r.r->user_cnt[k];
    return v;
}
static double now() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }
static std::string jesc(const std::string& s)
{
    std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += c; } return o;
}
static Plan generate(uint64_t seed, uint64_t idx)
{
    Plan p; p.seed = seed; p.index = idx; p.prop = g_scn->id();
    Rng g(seed * 1000003ull + idx * 7919ull + 17);
    g_scn->gen(p, g);
    return p;
}

int main(int argc, char** argv)
{
    // fixed addresses: repeat ourselves without address randomisation
    if (!getenv("SIM_NOASLR"))
    {
        setenv("SIM_NOASLR", "1", 1);
        personality(ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    { std::stringstream w; double d; w << 1.25 << " " << 3 << " " << 7u << " " << 2.5f << std::string("x"); w >> d; int i; w >> i; unsigned u; w >> u; float f; w >> f; std::istringstream q("1"); q >> d; } // library caches
    tzset(); { time_t z = 0; tm v; localtime_r(&z, &v); }
    g_scn = make_scenario();
    rt_global_init();
    for (auto& s : g_shared)
    {
        s = (RtResult*) mmap(0, sizeof(RtResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (s == MAP_FAILED) { perror("mmap"); return 3; }
    }
    std::vector<Run> rs; Totals t;
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "--gen") { std::cout << generate(strtoull(argv[2], 0, 10), strtoull(argv[3], 0, 10)).text(); return 0; }
    if (mode == "--run")
    {
        std::ifstream f(argv[2]); std::stringstream b; b << f.rdbuf();
        Plan p; if (!Plan::parse(b.str(), p)) { fprintf(stderr, "bad plan\n"); return 3; }
        if (p.prop != g_scn->id()) { fprintf(stderr, "plan is for %s\n", p.prop.c_str()); return 3; }
        Verdict v = run_plan(p, t, rs);
        if (getenv("SIM_OBS")) for (size_t i = 0; i < rs.size(); i++) for (auto& o : rs[i].obs) printf("v%zu t%d op%d %s\n", i, o.task, o.op, o.s.c_str());
        printf("{\"ok\": %s, \"kind\": \"%s\", \"msg\": \"%s\", \"hash\": \"%016llx\", \"steps\": %llu}\n", v.ok ? "true" : "false", jesc(v.kind).c_str(), jesc(v.msg).c_str(),
               (unsigned long long) t.trace, (unsigned long long) t.steps);
        return v.ok ? 0 : 1;
    }
    if (mode == "--batch")   // start step count seed planout hashout seconds
    {
        uint64_t start = strtoull(argv[2], 0, 10), step = strtoull(argv[3], 0, 10), count = strtoull(argv[4], 0, 10), seed = strtoull(argv[5], 0, 10);
        double cap = atof(argv[8]); double t0 = now();
        Totals sum; uint64_t runs = 0, nontriv = 0, det = 0, nondet = 0, stalls = 0; std::set<uint64_t> inter, state, nt; std::vector<std::string> samples;
        std::string vio;
        for (uint64_t i = 0; i < count && now() - t0 < cap; i++)
        {
            Plan p = generate(seed, start + i * step);
            Verdict v = run_plan(p, t, rs);
            runs++;
            sum.steps += t.steps; sum.sim += t.sim; sum.allocs += t.allocs; sum.nth += t.nth; sum.cap += t.cap; sum.outage += t.outage; sum.big += t.big; sum.dirty += t.dirty; sum.reused += t.reused; sum.scrib += t.scrib; sum.painted += t.painted; sum.sw += t.sw;
            sum.races += t.races; sum.clk += t.clk; sum.procs += t.procs; sum.stops += t.stops;
            for (int k = 0; k < 16; k++) sum.user[k] += t.user[k];
            inter.insert(t.inter); state.insert(t.state);
            if (g_scn->nontrivial(p, rs)) { nontriv++; nt.insert(t.state * 31 ^ t.inter); if (samples.size() < 2) samples.push_back(p.text()); }
            bool again = !v.ok || i % 16 == 0;
            if (again)
            {
                Totals t2; uint64_t h = t.trace; Verdict v2 = run_plan(p, t2, rs); det++;
                if ((v.kind == "hang") != (v2.kind == "hang"))
                {
                    // the machine stood still (processor time is real time of a virtual machine): an endless loop would have shown twice
                    Totals t3; Verdict v3 = run_plan(p, t3, rs); stalls++;
                    if (v.kind == "hang") { v = v2; h = t2.trace; }
                    v2 = v3; t2 = t3;
                }
                if (t2.trace != h || v2.kind != v.kind)
                {
                    fprintf(stderr, "nondeterministic: index %llu verdict %s/%s %s / %s\n", (unsigned long long) p.index, v.kind.c_str(), v2.kind.c_str(), v.msg.c_str(), v2.msg.c_str());
                    if (++nondet > 20) break;
                    continue;
                }
            }
            if (!v.ok)
            {
                std::ofstream(argv[6]) << p.text();
                vio = fmt("{\"kind\": \"%s\", \"msg\": \"%s\", \"index\": %llu}", jesc(v.kind).c_str(), jesc(v.msg).c_str(), (unsigned long long) p.index);
                break;
            }
        }
        std::ofstream hf(argv[7], std::ios::binary);
        auto put = [&](std::set<uint64_t>& s) { uint64_t n = s.size(); hf.write((char*) &n, 8); for (uint64_t x : s) hf.write((char*) &x, 8); };
        put(inter); put(state); put(nt);
        std::cout << "{\"runs\": " << runs << ", \"nondeterministic\": " << nondet << ", \"nontrivial\": " << nontriv << ", \"det_checks\": " << det << ", \"steps\": " << sum.steps << ", \"sim_ns\": " << sum.sim << ", \"allocs\": " << sum.allocs
                  << ", \"f_nth\": " << sum.nth << ", \"f_cap\": " << sum.cap << ", \"f_outage\": " << sum.outage << ", \"f_big\": " << sum.big << ", \"m_dirty\": " << sum.dirty << ", \"m_reused\": " << sum.reused << ", \"m_scribbled\": " << sum.scrib << ", \"m_painted\": " << sum.painted << ", \"switches\": " << sum.sw
                  << ", \"race_checks\": " << sum.races << ", \"clock_reads\": " << sum.clk << ", \"processes\": " << sum.procs << ", \"process_stops\": " << sum.stops << ", \"seconds\": " << now() - t0;
        auto names = g_scn->counters();
        std::cout << ", \"counters\": {";
        for (size_t k = 0; k < names.size(); k++) std::cout << (k ? ", " : "") << "\"" << names[k] << "\": " << sum.user[k];
        std::cout << "}, \"rule\": \"" << jesc(g_scn->nontrivial_rule()) << "\", \"samples\": [";
        for (size_t k = 0; k < samples.size(); k++) std::cout << (k ? ", " : "") << "\"" << jesc(samples[k]) << "\"";
        std::cout << "]" << (vio.empty() ? "" : ", \"violation\": " + vio) << "}" << std::endl;
        return !vio.empty() ? 1 : nondet ? 3 : 0;
    }
    fprintf(stderr, "usage: %s --batch start step count seed planout hashout seconds | --run plan | --gen seed index\n", argv[0]);
    return 3;
}
