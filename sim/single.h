#pragma once
#include <optional>
#include <tuple>
#include <vector>
// Performs one library call, with the fault of op armed during the call alone.
struct One
{
    const Op* op; Dump& d; long fired = 0; bool refused = false, empty = false, no = false; uint64_t part[12] = {}; bool gone[12] = {}; int parts = 0; // refused: bad_alloc; empty: reports that there is no result
    template <class T, class A> void out(const matrix<T, A>& m) { Dump q; put(q, m); put(d, m); piece(q, m.size() == 0); }
    template <class T> void out(const std::vector<T>& v) { Dump q; putv(q, v); putv(d, v); piece(q, v.empty()); }
    void out(bool b) { d.raw(b); if (!b) empty = no = true; }
    void piece(const Dump& q, bool e) { if (e) empty = true; if (parts < 12) { part[parts] = q.h ^ q.n; gone[parts++] = e; } }
    void out(double v) { d.num(v); }
    void out(unsigned v) { d.raw(v); }
    void out(const cd& v) { put1<cd>(d, v); }
    template <class... T> void out(const std::tuple<T...>& t) { std::apply([&](const auto&... x) { (out(x), ...); }, t); }
    template <class F> void operator()(F f)
    {
        std::optional<decltype(f())> r;
        if (op) rt_arm(op->fk, op->fa, op->fb);
        try { r.emplace(f()); } catch (const std::bad_alloc&) { refused = true; }
        if (op) fired = rt_disarm();
        if (r) out(*r);
    }
};
struct OneEnt { const char* name; void (*f)(In&, One&); };
extern const OneEnt SINGLES[]; extern const int SINGLES_N;
