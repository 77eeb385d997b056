// Library of deterministic computations over the whole public interface.
#pragma once
#include "core.h"
#include <string.h>
#include <stdio.h>
struct Dump
{
    uint64_t h = 1469598103934665603ull; size_t n = 0; char buf[640]; size_t len = 0;
    void raw(uint64_t v) { n++; h = (h ^ v) * 1099511628211ull; h ^= h >> 29; if (len + 20 < sizeof buf) len += snprintf(buf + len, sizeof buf - len, "%llx ", (unsigned long long) v); }
    void num(double d) { uint64_t u; if (d != d) u = 0x7ff8dead; else { if (d == 0) d = 0; memcpy(&u, &d, 8); } raw(u); }
    void str(const char* s, size_t k) { raw(k); for (size_t i = 0; i < k; i++) { h = (h ^ (unsigned char) s[i]) * 1099511628211ull; } if (len + k + 2 < sizeof buf) { memcpy(buf + len, s, k); len += k; buf[len++] = ' '; } }
    std::string text() const { return fmt("%016llx %zu: ", (unsigned long long) h, n) + std::string(buf, len); }
    bool same(const Dump& o) const { return h == o.h && n == o.n; }
};
int calc_count();
const char* calc_name(int k);
// everything inside runs as code under test
void calc_run(int k, uint64_t seed, Dump& d);
// one library call whose input is complete beforehand; op's fault is armed during the call alone (null: none)
struct Single { long fired = 0; bool refused = false, empty = false, no = false; uint64_t part[12] = {}; bool gone[12] = {}; int parts = 0; };  // no: false was returned; part: each matrix or vector of the result, gone: empty
int single_count();
const char* single_name(int k);
void single_run(int k, uint64_t seed, Dump& d, const Op* op, Single& r);
// objects shared read-only between tasks
void calc_shared_make();
void calc_shared_free();
int  calc_shared_count();
const char* calc_shared_name(int k);
void calc_shared_run(int k, uint64_t seed, Dump& d);
void calc_shared_check(Dump& d);       // contents of the shared objects
