#pragma once
#include <susa.h>
#include "world.h"
#include <new>
#include <algorithm>

struct BitWorld : IWorld
{
    typedef susa::bitset B;
    static const int K = 4;
    struct Mo { size_t n = 0; std::vector<char> v; bool moved = false; };
    int task; unsigned turns = 0; B* s[K]; bool live[K]; Mo m[K];
    explicit BitWorld(int t) : task(t) { for (int i = 0; i < K; i++) { Sut q; s[i] = (B*) ::operator new(sizeof(B)); live[i] = false; } }
    static size_t size_of(const Op& op)
    {
        static const size_t t[] = { 1, 7, 8, 9, 16, 17, 31, 64, 65, 3, 12, 40, 5, 63, 0, 129 }, big[] = { 257, 300, 1000, 2049, 2055, 3000, 5000, 520 };
        if (op.mod(5, 64) == 17) return big[op.mod(3, 8)];
        return t[op.mod(3, 16)];
    }
    bool is_empty(int i) { size_t k; { Sut q; k = s[i]->size(); } return k == 0; }
    void check_slot(int i, const char* when)
    {
        if (!live[i] || m[i].moved) return;
        Mo& x = m[i]; bool any; size_t by; { Sut q; any = s[i]->any(); by = s[i]->size(); }
        if (by != (x.n + 7) / 8) rt_fail("bad-state", "%s: bitset %d of %zu elements holds %zu bytes", when, i, x.n, by);
        bool e = false;
        size_t turn = ++turns % 61; bool whole = x.n < 300 || turn == 0;
        for (size_t k = 0; k < x.n; k++) { if (!whole && !x.v[k] && k % 61 != turn) { e |= x.v[k]; continue; } if (!whole && x.v[k] && k % 8 != turn % 8 && k > 64 && k + 64 < x.n) { e = true; continue; } bool g; { Sut q; g = s[i]->exists(k); } if (g != (bool) x.v[k]) rt_fail("corrupted-object", "%s: bitset %d element %zu is %d", when, i, k, (int) g); e |= g; }
        if (any != e) rt_fail("corrupted-object", "%s: bitset %d any() is %d", when, i, (int) any);
    }
    void check_all(const char* w) override { for (int i = 0; i < K; i++) check_slot(i, w); }
    uint64_t bytes_held() override { return 0; }
    void kill(int d) { if (live[d]) { Sut q; s[d]->~B(); live[d] = false; m[d] = Mo(); } }
    void destroy_all() override { for (int i = 0; i < K; i++) { kill(i); if (s[i]) { Sut q; ::operator delete((void*) s[i], sizeof(B)); s[i] = nullptr; } } }
    void ensure(int i, const Op& op)
    {
        if (live[i] && !m[i].moved) return;
        kill(i); size_t n = size_of(op);
        { Sut q; new (s[i]) B(n); } live[i] = true; m[i] = Mo(); m[i].n = n; m[i].v.assign(n, 0);
    }
    // a failed request may end the process (checked by the parent) or leave the destination empty
    void settle(const Op&, const Outcome& o, int d, const Mo& E, const char* nm)
    {
        if (o.out == O_EXC || (o.out != O_OK && !o.fired)) rt_fail("unexpected-exception", "%s threw %s", nm, o.what.c_str());
        if (o.fired && is_empty(d)) { kill(d); return; }
        m[d] = E; check_slot(d, nm);
    }
    void apply(const Op& op, const Mode& md) override
    {
        const std::string& n = op.name; const char* nm = op.name.c_str();
        int d = op.mod(0, K), a = op.mod(1, K); long z = op.arg(4);
        if (n == "b.ctor")
        {
            kill(d); Mo E; E.n = size_of(op); E.v.assign(E.n, 0);
            Outcome o = sut_run(op, md.faults, [&] { new (s[d]) B(E.n); });
            if (o.out == O_OK) { live[d] = true; settle(op, o, d, E, nm); }
            else if (o.out == O_EXC || !o.fired) rt_fail("unexpected-exception", "%s threw %s", nm, o.what.c_str());
        }
        else if (n == "b.copy" || n == "b.move")
        {
            if (a == d) a = (a + 1) % K; ensure(a, op); kill(d); Mo E = m[a]; bool mv = n == "b.move";
            Outcome o = sut_run(op, md.faults, [&] { if (mv) new (s[d]) B(std::move(*s[a])); else new (s[d]) B(*s[a]); });
            if (o.out == O_OK) { live[d] = true; settle(op, o, d, E, nm); if (mv) m[a].moved = true; }
            else if (o.out == O_EXC || !o.fired) rt_fail("unexpected-exception", "%s threw %s", nm, o.what.c_str());
        }
        else if (n == "b.assign" || n == "b.assignmv")
        {
            ensure(a, op); if (!live[d]) ensure(d, op); Mo E = m[a]; bool mv = n == "b.assignmv" && a != d;
            Outcome o = sut_run(op, md.faults, [&] { if (mv) *s[d] = std::move(*s[a]); else *s[d] = *s[a]; });
            settle(op, o, d, E, nm); if (mv) m[a].moved = true;
        }
        else if (n == "b.kill") kill(d);
        else if (n == "b.wide")
        {
            // a set whose elements need more than 16 bits
            if (op.mod(6, 6)) return;
            static const size_t t[] = { 65536, 65537, 65535, 65600, 70001, 131072, 131080, 200003 };
            size_t N = t[op.mod(3, 8)], h[4], got[6]; bool any0, any1, ex = true, out = false; std::vector<size_t> w;
            for (int i = 0; i < 4; i++) h[i] = (size_t) (op.arg(2 + i) * 40503 + i * 65521) % N; if (op.mod(5, 2)) h[0] = N - 1;
            { Sut q; B f(N); for (size_t i : h) f.set(i); B c(f); f.reset(); any0 = f.any(); any1 = c.any(); for (size_t i : h) { if (!c.exists(i)) ex = false; if (c.exists((i + 65536) % N) && (i + 65536) % N != h[0] && (i + 65536) % N != h[1] && (i + 65536) % N != h[2] && (i + 65536) % N != h[3]) out = true; } for (int i = 0; i < 6; i++) got[i] = c.pop(); }
            w.assign(h, h + 4); std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); while (w.size() < 6) w.push_back(N);
            if (any0 || !any1 || !ex || out) rt_fail("wrong-result", "a set of %zu elements loses or invents an element", N);
            for (int i = 0; i < 6; i++) if (got[i] != w[i]) rt_fail("wrong-result", "pop %d of a set of %zu elements gives %zu, expected %zu", i, N, got[i], w[i]);
        }
        else
        {
            ensure(d, op); Mo& x = m[d]; size_t k = ((size_t) op.arg(4) + (x.n > 64 ? 64 * (size_t) op.mod(5, 64) + 4096 * (size_t) (op.mod(3, 2)) : 0)) % (x.n ? x.n : 1);
            if (n == "b.set") { { Sut q; s[d]->set(k); } if (x.n) x.v[k] = 1; }
            else if (n == "b.push") { { Sut q; s[d]->push(k); } if (x.n) x.v[k] = 1; }
            else if (n == "b.reset") { { Sut q; s[d]->reset(k); } if (x.n) x.v[k] = 0; }
            else if (n == "b.setall") { { Sut q; s[d]->set(); } for (auto& e : x.v) e = 1; }
            else if (n == "b.clear") { { Sut q; s[d]->reset(); } for (auto& e : x.v) e = 0; }
            else if (n == "b.pop")
            {
                size_t g, e = 0; { Sut q; g = s[d]->pop(); } while (e < x.n && !x.v[e]) e++;
                if (g != e) rt_fail("wrong-result", "pop gives %zu, expected %zu", g, e); if (e < x.n) x.v[e] = 0;
            }
            else if (n == "b.drain")
            {
                // emptying by pop yields every element once in order
                for (size_t e = 0; e <= (x.n < 300 ? x.n : 6); e++)
                {
                    size_t g; { Sut q; g = s[d]->pop(); } size_t f = 0; while (f < x.n && !x.v[f]) f++;
                    if (g != f) rt_fail("wrong-result", "pop gives %zu, expected %zu", g, f); if (f >= x.n) break; x.v[f] = 0;
                }
            }
            else if (n == "bx.out")
            {
                // elements outside the set are ignored and never found
                static const size_t off[] = { 0, 1, 7, 8, 64, 1000, 1u << 20, 0xffffffffu, 0x100000000ull, 0x800000000ull, (size_t) -1, 3 };
                size_t k2 = off[op.mod(5, 12)]; k2 = k2 > (size_t) -1 - x.n ? k2 : k2 + x.n; bool e;
                { Sut q; if (z & 1) s[d]->set(k2); if (z & 2) s[d]->reset(k2); if (z & 4) s[d]->push(k2); e = s[d]->exists(k2); }
                if (e) rt_fail("wrong-result", "an element outside the set exists");
            }
            else rt_internal("unknown operation %s", nm);
        }
        check_all(nm);
    }
};
