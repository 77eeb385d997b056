// Plans, scenarios and the run loop.
#pragma once
#include "rt.h"
#include <map>
#include <string>
#include <vector>
#include <functional>

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9e3779b97f4a7c15ull + 0x1234567) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    long below(long n) { return n <= 0 ? 0 : (long) (next() % (uint64_t) n); }
    long range(long a, long b) { return a + below(b - a + 1); }
    bool chance(int pct) { return below(100) < pct; }
    template <class C> auto& of(C& c) { return c[below((long) c.size())]; }
    double unit() { return (double) (next() >> 11) / 9007199254740992.0; }
};

struct Op
{
    int task = 0; std::string name; std::vector<long> a;
    int fk = F_NONE; long fa = 0, fb = 0;
    long arg(size_t i) const { return i < a.size() ? a[i] : 0; }
    // non-negative argument reduced modulo n
    long mod(size_t i, long n) const { if (n <= 0) return 0; long v = arg(i) % n; return v < 0 ? v + n : v; }
};

struct Plan
{
    std::string prop; uint64_t seed = 0; uint64_t index = 0;
    std::map<std::string, long> cfg;
    std::vector<Op> ops; std::vector<RtSwitch> sw;
    long c(const char* k, long d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
    std::string text() const;
    static bool parse(const std::string&, Plan&);
    RtCfg rtcfg() const;
};

struct Obs { int task, op; std::string s; };
struct Run { RtResult* r; std::vector<Obs> obs; };   // one variant
struct Verdict { bool ok = true; std::string kind, msg; };

struct Scenario
{
    virtual ~Scenario() {}
    virtual const char* id() = 0;
    virtual void gen(Plan&, Rng&) = 0;
    virtual int variants(const Plan&) { return 1; }
    virtual void tweak(const Plan&, int /*variant*/, RtCfg&) {}
    virtual void exec(const Plan&, int variant) = 0;            // in the child
    // called with all finished variants; default: every variant must end normally
    virtual Verdict judge(const Plan&, std::vector<Run>&);
    virtual bool nontrivial(const Plan&, std::vector<Run>& r);
    virtual std::vector<std::string> counters() { return {}; }   // names of rt_count indices
    virtual const char* nontrivial_rule() { return "at least one injected fault fired or one forced preemption changed the running task"; }
};
Scenario* make_scenario();      // provided by the property's translation unit

Verdict bad(const std::string& kind, const std::string& msg);
Verdict abnormal(const Run&);                                    // verdict for a run that did not end normally
void gen_heap(Plan&, Rng&);                                       // heap and stack configuration
void gen_schedule(Plan&, Rng&, int ntasks, long est_steps = 4000);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string hexd(double);
void paint_before_op();

// Executes f as code under test with the op's fault armed.
enum Out { O_OK, O_BADALLOC, O_EXC };
struct Outcome { Out out; long fired; std::string what; };
template <class F> Outcome sut_run(const Op& op, bool faults, F f)
{
    Outcome o{ O_OK, 0, "" };
    if (faults && op.fk != F_NONE) rt_arm(op.fk, op.fa, op.fb);
    else rt_arm(F_NONE, 0, 0);
    try { Sut s; f(); }
    catch (const std::bad_alloc&) { o.out = O_BADALLOC; }
    catch (const std::exception& e) { o.out = O_EXC; o.what = e.what(); }
    catch (...) { o.out = O_EXC; o.what = "unknown exception"; }
    o.fired = rt_disarm();
    return o;
}
