#pragma once
#include "world_matrix.h"
#include <susa.h>

template <class T, class A> struct ArrWorld : IWorld
{
    typedef susa::array<T, A> R;
    static const int K = 4;
    struct Mo { std::vector<size_t> dims; std::vector<T> v; bool known = true; };
    int task; R* s[K]; bool live[K]; Mo m[K];
    explicit ArrWorld(int t) : task(t) { for (int i = 0; i < K; i++) { Sut q; s[i] = (R*) ::operator new(sizeof(R)); live[i] = false; } }
    static size_t lin(const Mo& x, const std::vector<size_t>& i) { size_t e = 0, f = 1; for (size_t k = 0; k < i.size(); k++) { e += i[k] * f; f *= x.dims[k]; } return e; }
    T getn(int i, const std::vector<size_t>& x, int how)
    {
        const R& q = *s[i];
        if (how == 0) return q.get(x);
        switch (x.size())
        {
        case 1: return how == 1 ? q.get(x[0]) : q(x[0]);
        case 2: return how == 1 ? q.get(x[0], x[1]) : how == 2 ? q(x[0], x[1]) : q.get({ x[0], x[1] });
        case 3: return how == 1 ? q.get(x[0], x[1], x[2]) : how == 2 ? q(x[0], x[1], x[2]) : q.get({ x[0], x[1], x[2] });
        case 5: return how == 1 ? q.get(x[0], x[1], x[2], x[3], x[4]) : how == 2 ? q(x[0], x[1], x[2], x[3], x[4]) : q.get({ x[0], x[1], x[2], x[3], x[4] });
        case 6: return how == 1 ? q.get(x[0], x[1], x[2], x[3], x[4], x[5]) : how == 2 ? q(x[0], x[1], x[2], x[3], x[4], x[5]) : q.get({ x[0], x[1], x[2], x[3], x[4], x[5] });
        default: return how == 1 ? q.get(x[0], x[1], x[2], x[3]) : how == 2 ? q(x[0], x[1], x[2], x[3]) : q.get({ x[0], x[1], x[2], x[3] });
        }
    }
    void put(int i, const std::vector<size_t>& x, const T& v)
    {
        R& q = *s[i];
        switch (x.size()) { case 2: q(x[0], x[1]) = v; break; case 3: q(x[0], x[1], x[2]) = v; break; case 4: q(x[0], x[1], x[2], x[3]) = v; break; case 5: q(x[0], x[1], x[2], x[3], x[4]) = v; break; default: q(x[0], x[1], x[2], x[3], x[4], x[5]) = v; }
    }
    size_t raw_of(int i, const std::vector<size_t>& x)
    {
        R& q = *s[i];
        switch (x.size()) { case 2: return q.get_raw_index(x[0], x[1]); case 3: return q.get_raw_index(x[0], x[1], x[2]); case 4: return q.get_raw_index(x[0], x[1], x[2], x[3]); case 5: return q.get_raw_index(x[0], x[1], x[2], x[3], x[4]); default: return q.get_raw_index(x[0], x[1], x[2], x[3], x[4], x[5]); }
    }
    bool matches(int i, const Mo& x, std::string& why)
    {
        // linear access, then the last element by coordinates
        for (size_t k = 0; k < x.v.size(); k++)
        {
            T g; { Sut q; const R& c = *s[i]; g = c.get(k); }
            if (!vsame<T>(g, x.v[k])) { why = fmt("element %zu of %zu is %s, expected %s", k, x.v.size(), vstr<T>(g).c_str(), vstr<T>(x.v[k]).c_str()); return false; }
        }
        return true;
    }
    bool is_empty(int i)
    {
#ifdef SUSA_NASSERT
        for (size_t k = 0; k < 3; k++) { T g; { Sut q; const R& c = *s[i]; g = c.get(k); } if (!vsame<T>(g, T())) return false; }
        return true;
#else
        (void) i; return false;
#endif
    }
    // does it store anything?
    bool holds(int i)
    {
        T old, g, v = Conv<T>::from(5), v2 = Conv<T>::from(6); Sut q; const R& c = *s[i];
        old = c.get(0); (*s[i])(0) = vsame<T>(old, v) ? v2 : v; g = c.get(0); bool r = !vsame<T>(g, old); if (r) (*s[i])(0) = old; return r;
    }
    void check_slot(int i, const char* when)
    {
        if (!live[i]) return;
        if (m[i].v.empty())
        {
#ifdef SUSA_NASSERT
            if (!is_empty(i)) rt_fail("corrupted-object", "%s: empty array %d returns something", when, i);
#endif
            return;
        }
        std::string why;
        if (!matches(i, m[i], why)) rt_fail("corrupted-object", "%s: array %d: %s", when, i, why.c_str());
        size_t tot = 1; for (size_t q : m[i].dims) tot *= q;
        if (tot == m[i].v.size() && !m[i].dims.empty())
        {
            std::vector<size_t> x; for (size_t k = 0; k < m[i].dims.size(); k++) x.push_back(m[i].dims[k] - 1 - (k % 2 && m[i].dims[k] > 1));
            T g; size_t raw; { Sut q; g = getn(i, x, 0); raw = raw_of(i, x); }
            if (!vsame<T>(g, m[i].v[lin(m[i], x)]) || raw != lin(m[i], x)) rt_fail("corrupted-object", "%s: array %d: coordinates address the wrong element", when, i);
        }
    }
    void check_others(int d, int e, const char* w) { for (int i = 0; i < K; i++) if (i != d && i != e) check_slot(i, w); }
    void check_all(const char* w) override { check_others(-1, -1, w); }
    uint64_t bytes_held() override { uint64_t b = 0; for (int i = 0; i < K; i++) if (live[i]) b += m[i].v.size() * sizeof(T); return b; }
    void kill(int d) { if (live[d]) { Sut q; s[d]->~R(); live[d] = false; m[d] = Mo(); } }
    void destroy_all() override { for (int i = 0; i < K; i++) { kill(i); if (s[i]) { Sut q; ::operator delete((void*) s[i], sizeof(R)); s[i] = nullptr; } } }
    void make(void* p, const std::vector<size_t>& d)
    {
        if (d.size() == 2) new (p) R({ d[0], d[1] });
        else if (d.size() == 3) new (p) R({ d[0], d[1], d[2] });
        else if (d.size() == 4) new (p) R({ d[0], d[1], d[2], d[3] });
        else if (d.size() == 5) new (p) R({ d[0], d[1], d[2], d[3], d[4] });
        else new (p) R({ d[0], d[1], d[2], d[3], d[4], d[5] });
    }
    void fill(int i, long salt)
    {
        Mo& x = m[i];
        for (size_t k = 0; k < x.v.size(); k++)
        {
            T v = salt % 3 ? Conv<T>::from((long) ((k * 5 + salt) % 37) - 13) : wild<T>((long) k + salt);
            { Sut q; (*s[i])(k) = v; }
            x.v[k] = v;
        }
    }
    std::vector<size_t> dims_of(const Op& op) { std::vector<size_t> d; int n = 2 + op.mod(3, 3); if (op.mod(3, 13) == 12) n = 5 + op.mod(2, 2); size_t all = 1; for (int k = 0; k < n; k++) { size_t w = dim(k < 4 ? op.arg(4 + k) : op.arg(k - 3) + k, 4); if (all * w > (g_scale == 3 ? 90000u : 3000u)) w = g_scale == 3 && k == n - 1 ? 2 : 1; all *= w; d.push_back(w); } return d; }
    void ensure(int i, const Op& op)
    {
        if (live[i] && !m[i].v.empty() && !m[i].dims.empty()) { size_t t = 1; for (size_t q : m[i].dims) t *= q; if (t == m[i].v.size()) return; }
        kill(i);
        Mo x; x.dims = dims_of(op); size_t t = 1; for (size_t q : x.dims) t *= q; x.v.resize(t);
        { Sut q; make(s[i], x.dims); } live[i] = true; m[i] = x; fill(i, op.arg(2));
    }
    void settle(const Outcome& o, int d, const Mo& E, const Mo* old, const char* nm)
    {
        if (o.out == O_EXC || (o.out != O_OK && !o.fired)) rt_fail("unexpected-exception", "%s threw %s", nm, o.what.c_str());
        std::string why;
        if (o.out == O_OK && !E.v.empty() && matches(d, E, why) && (!o.fired || holds(d))) { m[d] = E; return; }
        if (o.out == O_OK && E.v.empty()) { m[d] = E; check_slot(d, nm); return; }
        if (o.fired)
        {
            std::string w2;
            if (!holds(d) && is_empty(d)) { m[d] = Mo(); return; }
            if (old && !old->v.empty() && matches(d, *old, w2)) { m[d] = *old; return; }
            if (is_empty(d)) { m[d] = Mo(); return; }
            if (!E.v.empty() && matches(d, E, w2)) { m[d] = E; return; }
        }
        rt_fail(o.fired ? "fault-not-contained" : "wrong-result", "%s: array %d: %s", nm, d, why.c_str());
    }
    void apply(const Op& op, const Mode& md) override
    {
        const std::string& n = op.name; const char* nm = op.name.c_str();
        int d = op.mod(0, K), a = op.mod(1, K); long z = op.arg(2);
        if (n == "a.ctor")
        {
            kill(d); Mo x; x.dims = dims_of(op); size_t t = 1; for (size_t q : x.dims) t *= q; x.v.resize(t);
            Outcome o = sut_run(op, md.faults, [&] { make(s[d], x.dims); });
            if (o.out == O_OK)
            {
                live[d] = true; m[d] = x;
                if (o.fired) { T v = Conv<T>::from(5), g; { Sut q; (*s[d])(0) = v; const R& c = *s[d]; g = c.get(0); } if (!vsame<T>(g, v)) m[d] = Mo(); }
                fill(d, z);
            }
            else if (o.out == O_EXC || !o.fired) rt_fail("unexpected-exception", "%s threw %s", nm, o.what.c_str());
        }
        else if (n == "a.big")
        {
            // far too large, or more elements than can be counted
            if (!md.faults) return;
            kill(d); static const size_t B[][3] = { { (size_t) 1 << 32, (size_t) 1 << 32, 1 }, { (size_t) 1 << 63, 2, 3 }, { ((size_t) 1 << 62) + 1, 4, 1 }, { 1 << 20, 1 << 20, 1 << 20 }, { (size_t) 1 << 40, 8, 8 }, { ((size_t) 1 << 32) + 1, (size_t) 1 << 32, 2 }, { 3, (size_t) -1, 5 } };
            std::vector<size_t> q(B[op.mod(3, 7)], B[op.mod(3, 7)] + (op.mod(4, 2) ? 3 : 2)); if (q.size() == 2 && (q[0] == 1 << 20 || q[1] == 8)) q.push_back(1 << 20);
            Outcome o = sut_run(op, md.faults, [&] { make(s[d], q); });
            if (o.out == O_OK) { live[d] = true; m[d] = Mo(); if (holds(d)) rt_fail("fault-not-contained", "an array of too many elements can be used"); }
            else if (o.out == O_EXC) rt_fail("unexpected-exception", "%s threw %s", nm, o.what.c_str());
        }
        else if (n == "a.empty") { kill(d); { Sut q; new (s[d]) R(); } live[d] = true; }
        else if (n == "a.copy" || n == "a.move")
        {
            if (a == d) a = (a + 1) % K;
            if (!live[a]) ensure(a, op);
            kill(d); Mo src = m[a]; bool mv = n == "a.move";
            Outcome o = sut_run(op, md.faults, [&] { if (mv) new (s[d]) R(std::move(*s[a])); else new (s[d]) R(*s[a]); });
            if (o.out == O_OK) { live[d] = true; settle(o, d, src, nullptr, nm); if (mv) { std::string w; if (src.v.empty() || !matches_nofail(a, src)) m[a] = Mo(); } }
            else if (o.out == O_EXC || !o.fired) rt_fail("unexpected-exception", "%s threw %s", nm, o.what.c_str());
        }
        else if (n == "a.assign" || n == "a.assignmv")
        {
            if (!live[a]) ensure(a, op);
            if (!live[d]) { Sut q; new (s[d]) R(); live[d] = true; m[d] = Mo(); }
            Mo src = m[a], old = m[d]; bool mv = n == "a.assignmv" && a != d;
            Outcome o = sut_run(op, md.faults, [&] { if (mv) *s[d] = std::move(*s[a]); else *s[d] = *s[a]; });
            settle(o, d, src, &old, nm);
            if (mv) { if (src.v.empty() || !matches_nofail(a, src)) m[a] = Mo(); }
        }
        else if (n == "a.clone")
        {
            if (!live[d]) ensure(d, op);
            size_t len = m[d].v.size(); bool other = op.arg(3) & 1; if (other || len == 0) len = 1 + op.mod(4, 30);
            std::vector<T> data(len); for (size_t k = 0; k < len; k++) data[k] = Conv<T>::from((long) ((k * 3 + z) % 41) - 17);
            Mo E = m[d], old = m[d]; E.v = data; if (len != old.v.size()) E.dims = old.dims;
            Outcome o = sut_run(op, md.faults, [&] { s[d]->clone(data.data(), len); });
            settle(o, d, E, &old, nm);
        }
        else if (n == "a.set")
        {
            ensure(d, op); Mo& x = m[d]; std::vector<size_t> i; for (size_t k = 0; k < x.dims.size(); k++) i.push_back(op.mod(k < 4 ? 4 + k : k - 3, x.dims[k]));
            T v = Conv<T>::from(z % 60);
            { Sut q; put(d, i, v); }
            x.v[lin(x, i)] = v;
            for (int how = 0; how < 4; how++) { T g; { Sut q; g = getn(d, i, how); } if (!vsame<T>(g, v)) rt_fail("wrong-result", "a.set: access form %d reads %s instead of %s", how, vstr<T>(g).c_str(), vstr<T>(v).c_str()); }
        }
        else if (n == "a.const")
        {
            // a const array is unaffected by reads
            ensure(d, op); const R& c = *s[d]; Mo& x = m[d];
            for (size_t k = 0; k < x.v.size(); k += 1 + op.mod(3, 3)) { T g1, g2; { Sut q; g1 = c(k); g2 = c(k); } if (!vsame<T>(g1, x.v[k]) || !vsame<T>(g2, x.v[k])) rt_fail("wrong-result", "repeated reads of a const array differ"); }
        }
        else if (n == "a.kill") kill(d);
        else if (n.compare(0, 3, "ax.") == 0) { misuse(op); }
        else rt_internal("unknown operation %s", nm);
        check_all(nm);
    }
    bool matches_nofail(int i, const Mo& x)
    {
#ifdef SUSA_NASSERT
        std::string w; return matches(i, x, w) && holds(i);
#else
        (void) i; (void) x; return false;   // moved-from: only destroyed or assigned
#endif
    }
    void misuse(const Op& op)
    {
        const std::string& n = op.name; const char* nm = op.name.c_str();
        int a = op.mod(1, K); ensure(a, op); Mo& x = m[a]; long w = op.arg(3), z = op.arg(2); T v = Conv<T>::from(z % 60 + 1);
        size_t tot = x.v.size(), nd = x.dims.size();
        auto beyond = [&](size_t lim) { long k = w < 0 ? -w : w; switch (k % 3) { case 0: return lim; case 1: return lim + 1 + (size_t) (k % 7); default: return lim + (size_t) (k % 500) * 16; } };
        T g, g2;
        if (n == "ax.lin") { size_t i = beyond(tot); { Sut q; const R& c = *s[a]; g = c.get(i); (*s[a])(i) = v; g2 = (*s[a])(i); } need(g, nm); need(g2, nm); }
        else if (n == "ax.coord")
        {
            // any coordinate out of range, also where the address would be that of another element
            std::vector<size_t> i; for (size_t k = 0; k < nd; k++) i.push_back(op.mod(k < 4 ? 4 + k : k - 3, x.dims[k])); size_t bad = op.mod(0, (long) nd); i[bad] = z % 5 == 0 ? (size_t) -1 - (size_t) (z % 3) : z % 5 == 1 ? ((size_t) 1 << (48 + z % 16)) : beyond(x.dims[bad]);
            for (int how = 0; how < 4; how++) { { Sut q; g = getn(a, i, how); } need(g, nm); }
            { Sut q; put(a, i, v); g = getn(a, i, 2); } need(g, nm);
        }
        else if (n == "ax.many")
        {
            std::vector<size_t> i(nd, 0); i.push_back(0); std::vector<size_t> one(nd + 1, 0);
            { Sut q; g = getn0(a, one); } need(g, nm);
            if (nd == 2) { { Sut q; const R& c = *s[a]; g = c(0, 0, 0); (*s[a])(0, 0, 0) = v; } need(g, nm); }
        }
        else if (n == "ax.empty") { kill(a); { Sut q; new (s[a]) R(); } live[a] = true; m[a] = Mo(); { Sut q; const R& c = *s[a]; g = c.get(op.mod(4, 3)); (*s[a])(op.mod(4, 3)) = v; g2 = c(op.mod(5, 3)); } need(g, nm); need(g2, nm); }
        else rt_internal("unknown misuse %s", nm);
    }
    T getn0(int i, const std::vector<size_t>& x) { const R& c = *s[i]; return c.get(x); }
    void need(T g, const char* nm) { if (!vsame<T>(g, T())) rt_fail("wrong-result", "%s: an out-of-range read gives %s instead of the default", nm, vstr<T>(g).c_str()); }
};
