#pragma once
#include <susa.h>
#include "world.h"
#include <cmath>
#include <cstring>
#include <new>
#include <climits>
#include <limits>

template <class T> struct Conv { static T from(long v) { return (T) (v / 4.0); } static const bool cplx = false; };
template <> struct Conv<int> { static int from(long v) { return (int) v; } static const bool cplx = false; };
template <> struct Conv<uint8_t> { static uint8_t from(long v) { return (uint8_t) v; } static const bool cplx = false; };
template <> struct Conv<std::complex<double>> { static std::complex<double> from(long v) { return std::complex<double>(v / 4.0, (v % 7) / 2.0); } static const bool cplx = true; };

template <class T> bool veq(const T& a, const T& b) { return a == b; }
inline bool feq(double a, double b) { if (a == b) return true; if (a != a && b != b) return true; return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
template <> inline bool veq(const double& a, const double& b) { return feq(a, b); }
template <> inline bool veq(const float& a, const float& b) { if (a == b || (a != a && b != b)) return true; return std::fabs(a - b) <= 1e-4f * (1 + std::fabs(a) + std::fabs(b)); }
template <> inline bool veq(const std::complex<double>& a, const std::complex<double>& b) { return feq(a.real(), b.real()) && feq(a.imag(), b.imag()); }
// the same value, without tolerance: what copying and moving elements around must preserve
template <class T> bool vsame(const T& a, const T& b) { return a == b || (a != a && b != b); }
template <> inline bool vsame(const std::complex<double>& a, const std::complex<double>& b) { return vsame(a.real(), b.real()) && vsame(a.imag(), b.imag()); }
// conversion of one element, where it is defined
template <class T, class U> bool conv_fits(const T& v)
{
    if constexpr (Conv<T>::cplx) return conv_fits<double, typename U::value_type>(v.real()) && conv_fits<double, typename U::value_type>(v.imag());
    else
    {
        double d = (double) v; if (std::is_same<U, double>::value) return true; if (std::is_same<U, float>::value) return !(std::fabs(d) > 1e38) || std::isinf(d);
        return d > (double) std::numeric_limits<U>::min() - 1 && d < (double) std::numeric_limits<U>::max();
    }
}
template <class T, class U> U conv_to(const T& v) { if constexpr (Conv<T>::cplx) return U((typename U::value_type) v.real(), (typename U::value_type) v.imag()); else return (U) v; }
// values that arithmetic detours (a + b - b, a * b / b, a float in between) do not survive
template <class T> T wild(long k)
{
    if constexpr (std::is_same<T, std::complex<double>>::value) return T(wild<double>(k), wild<double>(k / 3 + 1));
    else if constexpr (std::is_floating_point<T>::value)
    {
        const T big = std::is_same<T, float>::value ? (T) 3e38 : (T) 1.7e308, tiny = std::is_same<T, float>::value ? (T) 1e-41 : (T) 1e-310;
        switch (k % 12)
        {
        case 0: return (T) 1e20; case 1: return (T) 0.1; case 2: return tiny; case 3: return std::numeric_limits<T>::quiet_NaN(); case 4: return std::numeric_limits<T>::infinity(); case 5: return (T) -1e-20;
        case 6: return big; case 7: return (T) -0.0; case 8: return -big; case 9: return (T) (1.0 / 3); case 10: return (T) 16777217.0; default: return -std::numeric_limits<T>::infinity();
        }
    }
    else if constexpr (std::is_same<T, int>::value) { static const int v[] = { INT_MAX, INT_MIN, -1, 0, 16777217, 0x40000000, 7 }; return v[k % 7]; }
    else return (T) (k * 37 + 200);
}
template <class T> double vmag(const T& a) { return std::fabs((double) a); }
template <> inline double vmag(const std::complex<double>& a) { return std::abs(a); }
template <class T> std::string vstr(const T& a) { return fmt("%g", (double) a); }
template <> inline std::string vstr(const std::complex<double>& a) { return fmt("(%g,%g)", a.real(), a.imag()); }

template <class T> struct Model
{
    size_t r = 0, c = 0; std::vector<T> v; std::vector<double> slack;  // slack: what rounding in another order may change
    Model() {}
    Model(size_t r_, size_t c_, T x = T()) : r(r_), c(c_), v(r_ * c_, x) {}
    bool empty() const { return v.empty(); }
    T& at(size_t i, size_t j) { return v[i + j * r]; }
    const T& at(size_t i, size_t j) const { return v[i + j * r]; }
    bool same(const Model& o, bool exact = true) const
    {
        if (r != o.r || c != o.c) return false;
        if (!o.slack.empty()) { for (size_t i = 0; i < v.size(); i++) if (!vsame<T>(v[i], o.v[i]) && !(vmag<T>((T) (v[i] - o.v[i])) <= o.slack[i])) return false; return true; }
        for (size_t i = 0; i < v.size(); i++) if (!(exact ? vsame<T>(v[i], o.v[i]) : veq<T>(v[i], o.v[i]))) return false;
        return true;
    }
    bool has_nan() const { for (auto& x : v) if (!(x == x)) return true; return false; }
    bool vec() const { return (r == 1 && c > 1) || (r > 1 && c == 1); }
    double mag() const { double m = 0; for (auto& x : v) { double q = vmag<T>(x); if (q != q) return q; if (q > m) m = q; } return m; }
    std::string str() const
    {
        std::string s = fmt("%zux%zu[", r, c);
        for (size_t i = 0; i < v.size() && i < 12; i++) s += (i ? " " : "") + vstr<T>(v[i]);
        return s + (v.size() > 12 ? " ...]" : "]");
    }
};

template <class T, class A> struct MatWorld : IWorld
{
    typedef susa::matrix<T, A> M;
    typedef Model<T> Mo;
    static const int K = 5;
    int task; M* s[K]; bool live[K]; Mo m[K];

    explicit MatWorld(int t) : task(t)
    {
        for (int i = 0; i < K; i++) { Sut q; s[i] = (M*) ::operator new(sizeof(M)); live[i] = false; }
    }
    // ---- observation through the public interface
    Mo read(int i, const char* when)
    {
        Mo o; const M& x = *s[i];
        size_t n = 0, vr = 0, vc = 0; bool sq = false, ve = false, sc = false;
        {
            Sut q;
            std::tie(o.r, o.c) = x.shape(); n = x.size(); vr = x.no_rows(); vc = x.no_cols();
            sq = x.is_square(); ve = x.is_vector(); sc = x.is_scalar();
        }
        if (n != o.r * o.c || vr != o.r || vc != o.c)
            rt_fail("bad-state", "%s: slot %d reports shape %zux%zu (%zux%zu) but %zu elements", when, i, o.r, o.c, vr, vc, n);
        if (o.r > 400000 || o.c > 400000 || n > 400000) rt_fail("bad-state", "%s: slot %d reports shape %zux%zu", when, i, o.r, o.c);
        o.v.resize(n);
        if (sq != (o.r == o.c) || ve != o.vec() || sc != (o.r == 1 && o.c == 1)) rt_fail("bad-state", "%s: shape predicates of slot %d disagree with %zux%zu", when, i, o.r, o.c);
        {
            Sut q;
            for (size_t a = 0; a < o.r; a++) for (size_t b = 0; b < o.c; b++) o.v[a + b * o.r] = x.get(a, b);
        }
        bool ok = true;
        { Sut q; for (size_t k = 0; k < n; k++) { T y = x.get(k); if (!vsame<T>(y, o.v[k])) ok = false; } }
        if (!ok) rt_fail("wrong-result", "%s: slot %d linear and (row, column) access disagree", when, i);
        return o;
    }
    void check_slot(int i, const char* when)
    {
        if (!live[i]) return;
        Mo o = read(i, when);
        if (!o.same(m[i])) rt_fail("corrupted-object", "%s: slot %d is %s, expected %s", when, i, o.str().c_str(), m[i].str().c_str());
    }
    void check_others(int d, int e, const char* when) { for (int i = 0; i < K; i++) if (i != d && i != e) check_slot(i, when); }
    void check_all(const char* when) override { for (int i = 0; i < K; i++) check_slot(i, when); }
    uint64_t bytes_held() override { uint64_t b = 0; for (int i = 0; i < K; i++) if (live[i]) { Sut q; b += s[i]->size() * sizeof(T); } return b; }
    void destroy_all() override
    {
        for (int i = 0; i < K; i++)
        {
            if (live[i]) { Sut q; s[i]->~M(); live[i] = false; }
            if (s[i]) { Sut q; ::operator delete((void*) s[i], sizeof(M)); s[i] = nullptr; }
        }
    }
    void ensure(int i, const Op& op, bool tame = true)
    {
        // a live, non-empty operand
        if (!live[i]) { Sut q; new (s[i]) M(); }
        live[i] = true;
        if (m[i].empty())
        {
            size_t r = dim(op.arg(3), 4), c = second(r, dim(op.arg(4), 4));
            Op no; sut_run(no, false, [&] { *s[i] = M(r, c, Conv<T>::from(op.arg(2))); });
            m[i] = Mo(r, c, Conv<T>::from(op.arg(2)));
            Op o2 = op;
            for (size_t k = 0; k < m[i].v.size(); k++)
            {
                T v = Conv<T>::from((long) ((k * 7 + op.arg(5)) % 23) - 9);
                { Sut q; (*s[i])(k) = v; }
                m[i].v[k] = v;
            }
        }
        if (!tame || (!Conv<T>::cplx && std::is_same<T, uint8_t>::value)) return;
        if (!(m[i].mag() < 2000))
        {
            for (size_t k = 0; k < m[i].v.size(); k++)
            {
                T v = Conv<T>::from((long) (k % 5) + 1);
                { Sut q; (*s[i])(k) = v; }
                m[i].v[k] = v;
            }
        }
    }
    // verify destination d after an operation that should produce E
    void settle(const Op& op, const Outcome& o, int d, const Mo& E, const Mo* old, const char* nm, bool exact = true)
    {
        if (o.out == O_EXC) rt_fail("unexpected-exception", "%s threw %s", nm, o.what.c_str());
        if (!o.fired && o.out != O_OK) rt_fail("unexpected-exception", "%s reported an allocation failure although none happened", nm);
        Mo a = read(d, nm);
        bool ok = a.same(E, exact);
        if (o.fired && !ok && a.empty()) ok = true;
        if (o.fired && !ok && o.out == O_BADALLOC && old && a.same(*old)) ok = true;
        if (!ok)
            rt_fail(o.fired ? "fault-not-contained" : "wrong-result", "%s: slot %d is %s, expected %s%s", nm, d, a.str().c_str(), E.str().c_str(), o.fired ? " or empty (an allocation failed)" : "");
        m[d] = a;
    }
    // value-producing operation assigned to slot d
    template <class F> void produce(const Op& op, const Mode& md, int d, const Mo& E, F f, const char* nm, bool exact = true)
    {
        if (!live[d]) { { Sut q; new (s[d]) M(); } live[d] = true; m[d] = Mo(); }
        Mo old = m[d];
        Outcome o = sut_run(op, md.faults, [&] { *s[d] = f(); });
        settle(op, o, d, E, &old, nm, exact);
        check_others(d, -1, nm);
    }
    // construction into slot d
    template <class F> void construct(const Op& op, const Mode& md, int d, const Mo& E, F f, const char* nm, bool exact = true)
    {
        kill(d);
        Outcome o = sut_run(op, md.faults, [&] { f((void*) s[d]); });
        if (o.out == O_OK) { live[d] = true; settle(op, o, d, E, nullptr, nm, exact); }
        else
        {
            if (o.out == O_EXC || !o.fired) rt_fail("unexpected-exception", "%s threw %s", nm, o.what.c_str());
            live[d] = false; m[d] = Mo();
        }
        check_others(d, -1, nm);
    }
    void kill(int d) { if (live[d]) { Sut q; s[d]->~M(); live[d] = false; m[d] = Mo(); } }
    void fill_slot(int d, const Op& op, long salt)
    {
        for (size_t k = 0; k < m[d].v.size(); k++)
        {
            T v = Conv<T>::from((long) ((k * 5 + salt) % 31) - 11);
            bool two = (k + salt) & 1; size_t i = k % m[d].r, j = k / m[d].r;
            { Sut q; if (two) (*s[d])(i, j) = v; else (*s[d])(k) = v; }
            m[d].v[k] = v;
        }
        (void) op;
    }
    static std::string text_of(const Mo& x, int style)
    {
        std::string o = style & 1 ? "[" : "";
        for (size_t i = 0; i < x.r; i++)
        {
            for (size_t j = 0; j < x.c; j++)
            {
                if (j) o += style & 2 ? "  " : " ";
                o += vstr<T>(x.at(i, j));
            }
            if (i + 1 < x.r) o += style & 4 ? "\n " : ";";
        }
        return o + (style & 1 ? "]" : "");
    }
    void apply(const Op& op, const Mode& md) override
    {
        const std::string& n = op.name; const char* nm = op.name.c_str();
        int d = op.mod(0, K), a = op.mod(1, K), b = op.mod(2, K);
        long x = op.arg(3), y = op.arg(4), z = op.arg(5);
        size_t r = dim(op.arg(3), 6), c = second(r, dim(op.arg(4), 6));
        T tv = Conv<T>::from(z % 50);
        (void) b;
        if (n == "m.ctor") { kill(d); construct(op, md, d, Mo(r, c, tv), [&](void* p) { new (p) M(r, c, tv); }, nm); }
        else if (n == "m.ctort") construct(op, md, d, Mo(r, c, tv), [&](void* p) { std::tuple<size_t, size_t> t(r, c); new (p) M(t, tv); }, nm);
        else if (n == "m.empty") construct(op, md, d, Mo(), [&](void* p) { new (p) M(); }, nm);
        else if (n == "m.ctoru" || n == "m.ctorut")
        {
            // elements start unspecified: set every one before looking
            kill(d); bool tup = n == "m.ctorut";
            Outcome o = sut_run(op, md.faults, [&] { if (tup) { std::tuple<size_t, size_t> t(r, c); new (s[d]) M(t); } else new (s[d]) M(r, c); });
            if (o.out == O_OK)
            {
                live[d] = true;
                size_t rr, cc; { Sut q; rr = s[d]->no_rows(); cc = s[d]->no_cols(); }
                bool ok = (rr == r && cc == c) || (o.fired && rr * cc == 0);
                if (!ok) rt_fail("bad-state", "%s: shape %zux%zu, expected %zux%zu", nm, rr, cc, r, c);
                m[d] = Mo(rr, cc);
                fill_slot(d, op, z); check_slot(d, nm);
            }
            else if (o.out == O_EXC || !o.fired) rt_fail("unexpected-exception", "%s threw %s", nm, o.what.c_str());
            else { live[d] = false; m[d] = Mo(); }
            check_others(d, -1, nm);
        }
        else if (n == "m.copy")
        {
            if (a == d) a = (a + 1) % K;
            if (!live[a]) ensure(a, op);
            construct(op, md, d, m[a], [&](void* p) { new (p) M(*s[a]); }, nm);
        }
        else if (n == "m.move")
        {
            if (a == d) a = (a + 1) % K;
            if (!live[a]) ensure(a, op);
            Mo src = m[a]; kill(d);
            Outcome o = sut_run(op, md.faults, [&] { new (s[d]) M(std::move(*s[a])); });
            if (o.out != O_OK) rt_fail("unexpected-exception", "move construction threw");
            live[d] = true; settle(op, o, d, src, nullptr, nm);
            Mo after = read(a, nm);
            if (!after.empty() && !after.same(src)) rt_fail("bad-state", "a moved-from matrix is neither empty nor unchanged: %s", after.str().c_str());
            m[a] = after;
            check_others(d, a, nm);
        }
        else if (n == "m.assign" || n == "m.assignmv")
        {
            if (!live[a]) ensure(a, op);
            if (!live[d]) { Sut q; new (s[d]) M(); live[d] = true; m[d] = Mo(); }
            Mo src = m[a], old = m[d]; bool mv = n == "m.assignmv";
            Outcome o = sut_run(op, md.faults, [&] { if (mv) *s[d] = std::move(*s[a]); else { M& ref = (*s[d] = *s[a]); if (&ref != s[d]) rt_fail("wrong-result", "assignment does not return its left operand"); } });
            if (mv && d == a)
            {
                Mo af = read(d, nm); if (!af.empty() && !af.same(src)) rt_fail("bad-state", "self move-assignment left neither the value nor an empty matrix"); m[d] = af;
            }
            else
            {
                settle(op, o, d, src, &old, nm);
                if (mv) { Mo af = read(a, nm); if (!af.empty() && !af.same(src)) rt_fail("bad-state", "a moved-from matrix is neither empty nor unchanged"); m[a] = af; }
            }
            check_others(d, mv ? a : -1, nm);
        }
        else if (n == "m.text" || n == "m.ctext")
        {
            if constexpr (!Conv<T>::cplx)
            {
                if (r * c > 1700) return;
                Mo E(r, c);
                for (size_t k = 0; k < E.v.size(); k++) E.v[k] = Conv<T>::from((long) ((k * 3 + z) % 40) - (std::is_same<T, uint8_t>::value ? 0 : 12));
                if (std::is_same<T, uint8_t>::value) for (auto& q : E.v) q = (T) ((int) q & 0x7f);
                std::string t = text_of(E, x & 7);
                if (n == "m.ctext") construct(op, md, d, E, [&](void* p) { std::string u(t.c_str()); new (p) M(u); }, nm, false);
                else
                {
                    if (!live[d]) { Sut q; new (s[d]) M(); live[d] = true; m[d] = Mo(); }
                    Mo old = m[d];
                    Outcome o = sut_run(op, md.faults, [&] { if (y & 1) *s[d] = t.c_str(); else *s[d] = t; });
                    if (o.fired && o.out == O_BADALLOC)
                    {
                        // a partial parse may have been stored before the failure: any consistent state is accepted, then reset
                        read(d, nm); { Sut q; s[d]->~M(); new (s[d]) M(); } m[d] = Mo();
                    }
                    else settle(op, o, d, E, &old, nm, false);
                    check_others(d, -1, nm);
                }
            }
        }
        else if (n == "m.resize")
        {
            if (!live[d]) { Sut q; new (s[d]) M(); live[d] = true; m[d] = Mo(); }
            bool rv = false; size_t oldn = m[d].v.size();
            Outcome o = sut_run(op, md.faults, [&] { rv = s[d]->resize(r, c); });
            if (o.out == O_EXC || (o.out != O_OK && !o.fired)) rt_fail("unexpected-exception", "resize threw %s", o.what.c_str());
            size_t rr, cc; { Sut q; rr = s[d]->no_rows(); cc = s[d]->no_cols(); }
            if (!(rr == r && cc == c) && !(o.fired && rr * cc == 0) && !(o.fired && o.out == O_BADALLOC && rr == m[d].r && cc == m[d].c)) rt_fail("bad-state", "resize to %zux%zu left %zux%zu", r, c, rr, cc);
            if (o.out == O_OK && rv != (rr == r && cc == c && rr * cc != 0)) rt_fail("wrong-result", "resize returned %d for a matrix of shape %zux%zu", (int) rv, rr, cc);
            (void) oldn;
            m[d] = Mo(rr, cc); fill_slot(d, op, z); check_slot(d, nm);
            check_others(d, -1, nm);
        }
        else if (n == "m.reshape")
        {
            ensure(a, op, false);
            Mo E = m[a]; size_t nn = E.v.size();
            std::vector<size_t> dv; for (size_t k = 1; k <= nn; k++) if (nn % k == 0) dv.push_back(k);
            size_t nr = dv[op.mod(3, dv.size())]; E.r = nr; E.c = nn / nr;
            produce(op, md, d, E, [&] { return s[a]->reshape(nr, nn / nr); }, nm);
        }
        else if (n == "m.set")
        {
            ensure(d, op, false); size_t i = op.mod(3, m[d].r), j = op.mod(4, m[d].c);
            T got; { Sut q; if (z & 1) (*s[d])(i, j) = tv; else (*s[d])(i + j * m[d].r) = tv; const M& cr = *s[d]; got = z & 2 ? cr(i, j) : cr(i + j * m[d].r); }
            if (!vsame<T>(got, tv)) rt_fail("wrong-result", "an element reads back a value that was not written");
            m[d].at(i, j) = tv; check_slot(d, nm); check_others(d, -1, nm);
        }
        else if (n == "m.wild")
        {
            ensure(d, op, false);
            for (size_t k = 0; k < m[d].v.size(); k++) { T v = wild<T>((long) (k * (1 + (size_t) (y % 5))) + x + z); { Sut q; (*s[d])(k) = v; } m[d].v[k] = v; }
            check_slot(d, nm); check_others(d, -1, nm);
        }
        else if (n == "m.setall")
        {
            ensure(d, op, false); { Sut q; s[d]->set_all(tv); } for (auto& q : m[d].v) q = tv;
            check_slot(d, nm); check_others(d, -1, nm);
        }
        else if (n == "m.setrow" || n == "m.setcol")
        {
            ensure(d, op, false); if (a == d && !op.mod(5, 2)) a = (a + 1) % K; ensure(a, op, false);
            bool row = n == "m.setrow"; size_t need = row ? m[d].c : m[d].r;
            if (a == d && m[a].v.size() < need) return;
            if (m[a].v.size() < need) { { Sut q; *s[a] = M(1, need, tv); } m[a] = Mo(1, need, tv); }
            size_t k = op.mod(3, row ? m[d].r : m[d].c); bool rv = false; Mo src = m[a];
            Outcome o = sut_run(op, md.faults, [&] { rv = row ? s[d]->set_row(k, *s[a]) : s[d]->set_col(k, *s[a]); });
            if (o.out == O_EXC || (o.out != O_OK && !o.fired)) rt_fail("unexpected-exception", "%s threw %s", nm, o.what.c_str());
            if (!rv && !o.fired) rt_fail("wrong-result", "%s reported failure", nm);
            if (rv) for (size_t q = 0; q < need; q++) (row ? m[d].at(k, q) : m[d].at(q, k)) = src.v[q];
            check_slot(d, nm); check_others(d, -1, nm);
        }
        else if (n == "m.swaprows" || n == "m.swapcols")
        {
            ensure(d, op, false); bool row = n == "m.swaprows"; size_t lim = row ? m[d].r : m[d].c; size_t i = op.mod(3, lim), j = op.mod(4, lim);
            { Sut q; if (row) s[d]->swap_rows(i, j); else s[d]->swap_cols(i, j); }
            for (size_t q = 0; q < (row ? m[d].c : m[d].r); q++) { if (row) std::swap(m[d].at(i, q), m[d].at(j, q)); else std::swap(m[d].at(q, i), m[d].at(q, j)); }
            check_slot(d, nm); check_others(d, -1, nm);
        }
        else if (n == "m.row" || n == "m.col")
        {
            ensure(a, op, false); bool row = n == "m.row"; size_t k = op.mod(3, row ? m[a].r : m[a].c);
            Mo E(row ? 1 : m[a].r, row ? m[a].c : 1);
            for (size_t q = 0; q < E.v.size(); q++) E.v[q] = row ? m[a].at(k, q) : m[a].at(q, k);
            produce(op, md, d, E, [&] { return row ? s[a]->row(k) : s[a]->col(k); }, nm);
        }
        else if (n == "m.vec")
        {
            ensure(a, op, false); bool row = x & 1; size_t k = op.mod(4, row ? m[a].r : m[a].c);
            std::vector<T> got;
            Outcome o = sut_run(op, md.faults, [&] { std::vector<T> w = row ? s[a]->get_row_as_vec(k) : s[a]->get_col_as_vec(k); SutOff off; got = w; });
            if (o.out == O_EXC || (o.out != O_OK && !o.fired)) rt_fail("unexpected-exception", "%s threw", nm);
            if (o.out == O_OK)
            {
                if (got.size() != (row ? m[a].c : m[a].r)) rt_fail("wrong-result", "row/column copy has the wrong length");
                for (size_t q = 0; q < got.size(); q++) if (!vsame<T>(got[q], row ? m[a].at(k, q) : m[a].at(q, k))) rt_fail("wrong-result", "row/column copy differs at %zu", q);
            }
            check_all(nm);
        }
        else if (n == "m.left" || n == "m.right" || n == "m.mid")
        {
            ensure(a, op, false); Mo& S = m[a]; size_t len = S.vec() ? S.v.size() : S.c;
            size_t lo, hi;
            if (n == "m.mid") { lo = op.mod(3, len); hi = lo + op.mod(4, len - lo); }
            else { size_t w = 1 + op.mod(3, len); if (n == "m.left") { lo = 0; hi = w - 1; } else { lo = len - w; hi = len - 1; } }
            size_t w = hi - lo + 1; Mo E;
            if (S.vec()) { E = S.r == 1 ? Mo(1, w) : Mo(w, 1); for (size_t q = 0; q < w; q++) E.v[q] = S.v[lo + q]; }
            else { E = Mo(S.r, w); for (size_t j = 0; j < w; j++) for (size_t i = 0; i < S.r; i++) E.at(i, j) = S.at(i, lo + j); }
            produce(op, md, d, E, [&] { return n == "m.mid" ? s[a]->mid(lo, hi) : n == "m.left" ? s[a]->left(w) : s[a]->right(w); }, nm);
        }
        else if (n == "m.shrink")
        {
            ensure(a, op, false); if (m[a].r < 2 || m[a].c < 2) { { Sut q; *s[a] = M(3, 2, tv); } m[a] = Mo(3, 2, tv); }
            Mo& S = m[a]; size_t er = op.mod(3, S.r), ec = op.mod(4, S.c); Mo E(S.r - 1, S.c - 1);
            for (size_t i = 0; i < E.r; i++) for (size_t j = 0; j < E.c; j++) E.at(i, j) = S.at(i < er ? i : i + 1, j < ec ? j : j + 1);
            produce(op, md, d, E, [&] { return s[a]->shrink(er, ec); }, nm);
        }
        else if (n == "m.add" || n == "m.sub" || n == "m.mul" || n == "m.div" || n == "m.acc" || n == "m.dec")
        {
            ensure(a, op); ensure(b, op); ensure(a, op);
            bool acc = n == "m.acc" || n == "m.dec";
            if (m[a].r != m[b].r || m[a].c != m[b].c) { { Sut q; *s[b] = *s[a]; } m[b] = m[a]; }
            if (n == "m.div") for (size_t k = 0; k < m[b].v.size(); k++) if (veq<T>(m[b].v[k], T())) { { Sut q; (*s[b])(k) = Conv<T>::from(4); } m[b].v[k] = Conv<T>::from(4); }
            Mo E = m[a];
            for (size_t k = 0; k < E.v.size(); k++)
            {
                T p = m[a].v[k], q = m[b].v[k];
                E.v[k] = n == "m.add" || n == "m.acc" ? (T) (p + q) : n == "m.sub" || n == "m.dec" ? (T) (p - q) : n == "m.mul" ? (T) (p * q) : (T) (p / q);
            }
            if (acc)
            {
                // the compound operators return a copy: its allocation may fail, the left operand may not be lost
                Mo old = m[a];
                Outcome o = sut_run(op, md.faults, [&] { if (n == "m.acc") *s[a] += *s[b]; else *s[a] -= *s[b]; });
                if (o.out == O_EXC || (o.out != O_OK && !o.fired)) rt_fail("unexpected-exception", "%s threw", nm);
                Mo af = read(a, nm);
                if (!af.same(E, false) && !(o.fired && (af.empty() || af.same(old)))) rt_fail(o.fired ? "fault-not-contained" : "wrong-result", "%s: slot %d is %s, expected %s", nm, a, af.str().c_str(), E.str().c_str());
                if (a == b) {} m[a] = af; check_others(a, -1, nm);
            }
            else produce(op, md, d, E, [&] { return n == "m.add" ? *s[a] + *s[b] : n == "m.sub" ? *s[a] - *s[b] : n == "m.mul" ? *s[a] * *s[b] : *s[a] / *s[b]; }, nm, false);
        }
        else if (n == "m.sadd" || n == "m.ssub" || n == "m.smul" || n == "m.sdiv")
        {
            ensure(a, op); bool leftsc = x & 1; T k = Conv<T>::from((z % 9) + 1);
            if (n == "m.sdiv") leftsc = false;
            Mo E = m[a];
            for (auto& e : E.v) e = n == "m.sadd" ? (T) (e + k) : n == "m.ssub" ? (leftsc ? (T) (k - e) : (T) (e - k)) : n == "m.smul" ? (T) (k * e) : (T) (e / k);
            produce(op, md, d, E, [&] {
                if (n == "m.sadd") return leftsc ? k + *s[a] : *s[a] + k;
                if (n == "m.ssub") return leftsc ? k - *s[a] : *s[a] - k;
                if (n == "m.smul") return leftsc ? k * *s[a] : *s[a] * k;
                return *s[a] / k; }, nm, false);
        }
        else if (n == "m.transpose")
        {
            ensure(a, op, false); Mo E(m[a].c, m[a].r);
            for (size_t i = 0; i < m[a].r; i++) for (size_t j = 0; j < m[a].c; j++) E.at(j, i) = m[a].at(i, j);
            produce(op, md, d, E, [&] { return susa::transpose(*s[a]); }, nm);
        }
        else if (n == "m.matmul")
        {
            ensure(a, op); ensure(b, op); ensure(a, op);
            if (a == b && m[a].c != m[a].r) { b = (b + 1) % K; ensure(b, op); }
            if (m[a].c != m[b].r) { { Sut q; *s[b] = susa::transpose(*s[a]); } m[b] = read(b, nm); }
            if (m[a].r * m[a].c * m[b].c > 300000 || m[a].r * m[b].c > (g_scale == 3 ? 90000u : 4000u)) return;
            Mo E(m[a].r, m[b].c); const double eps = std::is_same<T, float>::value ? 1.2e-7 : std::is_same<T, double>::value || Conv<T>::cplx ? 2.3e-16 : 0; if (eps > 0) E.slack.assign(E.v.size(), 0);
            for (size_t i = 0; i < E.r; i++) for (size_t j = 0; j < E.c; j++)
            {
                T acc = T(); double mag = 0; for (size_t k = 0; k < m[a].c; k++) { acc = (T) (acc + m[a].at(i, k) * m[b].at(k, j)); mag += vmag<T>(m[a].at(i, k)) * vmag<T>(m[b].at(k, j)); }
                E.at(i, j) = acc; if (eps > 0) E.slack[i + j * E.r] = 8 * eps * (double) (m[a].c + 2) * mag + 1e-300;
            }
            produce(op, md, d, E, [&] { return susa::matmul(*s[a], *s[b]); }, nm, false);
        }
        else if (n == "m.concat")
        {
            ensure(a, op, false); ensure(b, op, false); ensure(a, op, false);
            if (m[a].r != m[b].r && m[a].c != m[b].c) { { Sut q; *s[b] = *s[a]; } m[b] = m[a]; }
            Mo &P = m[a], &Q = m[b]; Mo E;
            if ((P.c == Q.c && P.r != Q.r) || (P.r == Q.r && P.c == Q.c))
            { E = Mo(P.r + Q.r, P.c); for (size_t j = 0; j < P.c; j++) { for (size_t i = 0; i < P.r; i++) E.at(i, j) = P.at(i, j); for (size_t i = 0; i < Q.r; i++) E.at(P.r + i, j) = Q.at(i, j); } }
            else { E = Mo(P.r, P.c + Q.c); for (size_t i = 0; i < P.r; i++) { for (size_t j = 0; j < P.c; j++) E.at(i, j) = P.at(i, j); for (size_t j = 0; j < Q.c; j++) E.at(i, P.c + j) = Q.at(i, j); } }
            if (E.v.size() > (g_scale == 0 ? 400 : g_scale == 3 ? 150000 : 4000)) return;
            produce(op, md, d, E, [&] { return susa::concat(*s[a], *s[b]); }, nm);
        }
        else if (n == "m.flip")
        {
            ensure(a, op, false); Mo& S = m[a]; Mo E = S; bool lr = x & 1;
            if (S.r == 1 || S.c == 1) for (size_t k = 0; k < S.v.size(); k++) E.v[k] = S.v[S.v.size() - 1 - k];
            else for (size_t i = 0; i < S.r; i++) for (size_t j = 0; j < S.c; j++) E.at(i, j) = lr ? S.at(i, S.c - 1 - j) : S.at(S.r - 1 - i, j);
            produce(op, md, d, E, [&] { return lr ? susa::fliplr(*s[a]) : susa::flipud(*s[a]); }, nm);
        }
        else if (n == "m.cmp")
        {
            if (!live[a]) ensure(a, op); if (!live[b]) ensure(b, op);
            if (m[a].has_nan() || m[b].has_nan()) return;
            bool e, ne; { Sut q; e = *s[a] == *s[b]; ne = *s[a] != *s[b]; }
            bool E = m[a].r == m[b].r && m[a].c == m[b].c;
            if (E) for (size_t k = 0; k < m[a].v.size(); k++) if (m[a].v[k] != m[b].v[k]) E = false;
            if (e != E || ne == E) rt_fail("wrong-result", "comparison of slots %d and %d gives %d/%d", a, b, (int) e, (int) ne);
            if (!m[a].empty())
            {
                // against a copy whose zeros have the other sign, and against one that differs in one element
                size_t k = (size_t) op.mod(5, (long) m[a].v.size()); T z = T(0), w = m[a].v[k] == T(1) ? T(2) : T(1); bool same, differ;
                {
                    Sut q; M t(*s[a]); T y = T(0);
                    if constexpr (std::is_floating_point<T>::value) y = -z; else if constexpr (Conv<T>::cplx) y = T(-0.0, -0.0);
                    for (size_t i = 0; i < t.size(); i++) if (t(i) == z) t(i) = y;
                    same = t == *s[a] && !(*s[a] != t);
                    if (!(m[a].v[k] == w)) { t(k) = w; differ = t != *s[a] && !(*s[a] == t); } else differ = true;
                }
                if (!same || !differ) rt_fail("wrong-result", "comparison of slot %d with a copy gives %s", a, !same ? "a difference where there is none" : "no difference where there is one");
            }
            check_all(nm);
        }
        else if (n == "m.byval")
        {
            // a function that takes and returns by value
            if (!live[a]) ensure(a, op);
            if (!live[d]) { Sut q; new (s[d]) M(); live[d] = true; m[d] = Mo(); }
            Mo E = m[a]; Mo old = m[d];
            Outcome o = sut_run(op, md.faults, [&] { auto f = [](M v) { M w(std::move(v)); return w; }; *s[d] = f(*s[a]); });
            settle(op, o, d, E, &old, nm); check_others(d, -1, nm);
        }
        else if (n == "m.conv")
        {
            // conversion to another element type
            if (!live[a]) ensure(a, op);
            if (m[a].empty()) return;
            // values over the whole range of the narrow types
            if (m[a].v.size() < 64 && op.mod(6, 2)) for (size_t k = 0; k < m[a].v.size(); k++) { long w = (long) ((k * 73 + (size_t) x * 29 + (size_t) op.arg(5) * 131) % 511) - 255, w2 = (long) ((k * 151 + (size_t) op.arg(5) * 37 + (size_t) x * 211) % 511) - 255; T v; if constexpr (Conv<T>::cplx) v = T((double) w, (double) w2); else v = (T) w; { Sut q; (*s[a])(k) = v; } m[a].v[k] = v; }
            if constexpr (Conv<T>::cplx) { if (x & 1) convert<std::complex<double>>(op, md, a, nm); else switch (op.mod(4, 5)) { case 0: case 1: convert<std::complex<float>>(op, md, a, nm); break; case 2: convert<std::complex<int>>(op, md, a, nm); break; case 3: convert<std::complex<int8_t>>(op, md, a, nm); break; default: convert<std::complex<uint8_t>>(op, md, a, nm); } }
            else switch (op.mod(4, 5)) { case 0: convert<double>(op, md, a, nm); break; case 1: convert<float>(op, md, a, nm); break; case 2: convert<int>(op, md, a, nm); break; case 3: convert<int8_t>(op, md, a, nm); break; default: convert<uint8_t>(op, md, a, nm); }
            check_all(nm);
        }
        else if (n == "m.warith") { wild_arith(op); check_all(nm); }
        else if (n == "m.kill") { kill(d); check_all(nm); }
        else if (n == "m.big")
        {
            // far larger than the heap: the request cannot succeed
            if (!md.faults) return;
            size_t rr = (size_t) 1 << (24 + op.mod(3, 6)), cc = (size_t) 1 << (3 + op.mod(4, 4));
            // ... or more elements than can be counted, so that a careless product is small again
            static const size_t over[][2] = { { (size_t) 1 << 32, (size_t) 1 << 32 }, { (size_t) 1 << 63, 2 }, { 2, ((size_t) 1 << 63) + 1 }, { ((size_t) 1 << 62) + 1, 4 }, { 4, ((size_t) 1 << 62) + 2 }, { (size_t) -1, (size_t) -1 }, { ((size_t) 1 << 32) + 1, (size_t) 1 << 32 } };
            if (op.mod(5, 2)) { rr = over[op.mod(3, 7)][0]; cc = over[op.mod(3, 7)][1]; }
            if (x & 1)
            {
                kill(d);
                Outcome o = sut_run(op, md.faults, [&] { new (s[d]) M(rr, cc, tv); });
                if (o.out == O_OK) { live[d] = true; Mo af = read(d, nm); if (!af.empty()) rt_fail("fault-not-contained", "an impossible allocation produced %s", af.str().c_str()); m[d] = af; }
                else if (o.out == O_EXC) rt_fail("unexpected-exception", "%s threw %s", nm, o.what.c_str());
            }
            else
            {
                if (!live[d]) { Sut q; new (s[d]) M(); live[d] = true; m[d] = Mo(); }
                Mo old = m[d]; bool rv = true;
                Outcome o = sut_run(op, md.faults, [&] { rv = s[d]->resize(rr, cc); });
                if (o.out == O_EXC) rt_fail("unexpected-exception", "%s threw %s", nm, o.what.c_str());
                Mo af = read(d, nm);
                if (!af.empty() && !(o.out == O_BADALLOC && af.same(old))) rt_fail("fault-not-contained", "an impossible resize produced %s", af.str().c_str());
                if (o.out == O_OK && rv) rt_fail("wrong-result", "an impossible resize reported success");
                m[d] = af;
            }
            check_others(d, -1, nm);
        }
        else if (n.compare(0, 2, "x.") == 0) misuse(op, md);
        else rt_internal("unknown operation %s", nm);
    }

    // element-wise arithmetic on values at the edges of the type: element by element what the operator of the type gives
    static bool near(const T& g, const T& e)
    {
        if constexpr (!std::is_floating_point<T>::value) return g == e;
        else
        {
            if (vsame<T>(g, e)) return true; if (!(std::fabs(e) <= std::numeric_limits<T>::max())) return false;
            return std::fabs(g - e) <= 4 * std::numeric_limits<T>::epsilon() * std::fabs(e) || (std::fabs(e) <= 4 * std::numeric_limits<T>::min() && std::fabs(g - e) <= 4 * std::numeric_limits<T>::min());
        }
    }
    void wild_arith(const Op& op)
    {
        if constexpr (!Conv<T>::cplx)
        {
            size_t r = 1 + (size_t) op.mod(3, 3), c = 1 + (size_t) op.mod(4, 3), N = r * c; long w = op.arg(5);
            std::vector<T> p(N), q(N), g(N); T k;
            auto val = [&](long i) -> T { if constexpr (std::is_same<T, int>::value) return (T) (i * 7919 % 40001 - 20000); else return wild<T>(i < 0 ? -i : i); };
            for (size_t i = 0; i < N; i++) { p[i] = val((long) i * 5 + w); q[i] = val((long) i * 7 + w / 12 + op.arg(2)); }
            k = op.mod(1, 3) ? val(op.arg(2) + op.arg(0)) : T(0);
            static const char* nm[] = { "P + Q", "P - Q", "P * Q", "P / Q", "P - P", "P += Q", "P -= Q", "P -= P", "P + k", "k + P", "P - k", "k - P", "P * k", "k * P", "P / k", "P += P", "P * P" };
            for (int f = 0; f < 17; f++)
            {
                std::vector<T> e(N); size_t gr, gc; bool skip = false, kept = true;
                if (!std::is_floating_point<T>::value) { if (f == 3) for (auto v : q) if (v == T(0)) skip = true; if (f == 14 && k == T(0)) skip = true; }
                if (skip) continue;
                {
                    Sut s; M P(r, c), Q(r, c); if (P.size() != N || Q.size() != N) return; for (size_t i = 0; i < N; i++) { P(i) = p[i]; Q(i) = q[i]; }
                    M R;
                    switch (f)
                    {
                    case 0: R = P + Q; break; case 1: R = P - Q; break; case 2: R = P * Q; break; case 3: R = P / Q; break; case 4: R = P - P; break;
                    case 5: R = P; R += Q; break; case 6: R = P; R -= Q; break; case 7: R = P; R -= R; break; case 8: R = P + k; break; case 9: R = k + P; break; case 10: R = P - k; break;
                    case 11: R = k - P; break; case 12: R = P * k; break; case 13: R = k * P; break; case 14: R = P / k; break; case 15: R = P; R += R; break; default: R = P * P;
                    }
                    gr = R.no_rows(); gc = R.no_cols(); if (R.size() == N) for (size_t i = 0; i < N; i++) g[i] = R(i);
                    for (size_t i = 0; i < N; i++) if (!vsame<T>(P(i), p[i]) || !vsame<T>(Q(i), q[i])) kept = false;
                }
                if (gr != r || gc != c) rt_fail("wrong-result", "%s of %zux%zu matrices is %zux%zu", nm[f], r, c, gr, gc);
                if (!kept) rt_fail("corrupted-object", "%s changes an operand", nm[f]);
                for (size_t i = 0; i < N; i++)
                {
                    volatile T P = p[i], Q = q[i], K = k; T v;
                    switch (f)
                    {
                    case 0: case 5: v = (T) (P + Q); break; case 1: case 6: v = (T) (P - Q); break; case 2: v = (T) (P * Q); break; case 3: v = (T) (P / Q); break; case 4: case 7: v = (T) (P - P); break;
                    case 8: case 9: v = (T) (P + K); break; case 10: v = (T) (P - K); break; case 11: v = (T) (K - P); break; case 12: case 13: v = (T) (P * K); break; case 14: v = (T) (P / K); break;
                    case 15: v = (T) (P + P); break; default: v = (T) (P * P);
                    }
                    if (!near(g[i], v)) rt_fail("wrong-result", "%s: element %zu is %s, expected %s (P %s, Q %s, k %s)", nm[f], i, vstr<T>(g[i]).c_str(), vstr<T>(v).c_str(), vstr<T>(p[i]).c_str(), vstr<T>(q[i]).c_str(), vstr<T>(k).c_str());
                }
            }
        }
    }

    template <class U> void convert(const Op& op, const Mode& md, int a, const char* nm)
    {
        std::vector<U> g; size_t r = 0, c = 0; Mo S = m[a];
        Outcome o = sut_run(op, md.faults, [&] { susa::matrix<U> t = s[a]->operator susa::matrix<U>(); SutOff off; r = t.no_rows(); c = t.no_cols(); for (size_t k = 0; k < t.size(); k++) g.push_back(t.get(k)); });
        if (o.out == O_EXC || (o.out == O_BADALLOC && !o.fired)) rt_fail("unexpected-exception", "%s threw %s", nm, o.what.c_str());
        if (o.fired && (o.out == O_BADALLOC || g.empty())) return;
        if (r != S.r || c != S.c || g.size() != S.v.size()) rt_fail("wrong-result", "%s: a %zux%zu matrix is converted to %zux%zu", nm, S.r, S.c, r, c);
        for (size_t k = 0; k < g.size(); k++)
        {
            if (!conv_fits<T, U>(S.v[k])) continue;
            if (!vsame<U>(g[k], conv_to<T, U>(S.v[k]))) rt_fail("wrong-result", "%s: element %zu, %s, is converted wrongly", nm, k, vstr<T>(S.v[k]).c_str());
        }
    }
    // ---- misuse: in builds without assertions a default, empty or false answer and no effect
    void need_default(T got, const char* nm) { if (!veq<T>(got, T())) rt_fail("wrong-result", "%s: an out-of-range read gives %s instead of the default", nm, vstr<T>(got).c_str()); }
    void misuse(const Op& op, const Mode&)
    {
        const std::string& n = op.name; const char* nm = op.name.c_str();
        int a = op.mod(1, K), b = op.mod(2, K), d = op.mod(0, K);
        ensure(a, op);
        bool kill_empty = n == "x.emptyop" || n == "x.emptyget" || n == "x.emptycut" || n == "x.emptymm" || n == "x.emptyfn";
        if (kill_empty) { { Sut q; s[a]->~M(); new (s[a]) M(); } m[a] = Mo(); }
        Mo& S = m[a];
        // distances past the end: just outside, a power of two, or far away
        auto beyond = [&](size_t lim, long w) { long k = w < 0 ? -w : w; switch (k % 4) { case 0: return lim; case 1: return lim + 1 + (size_t) (k % 7); case 2: return lim + (size_t) (k % 1000) * 64; default: return (size_t) -1 - (size_t) (k % 3); } };
        long w = op.arg(3), u = op.arg(4), z = op.arg(5);
        T tv = Conv<T>::from(z % 50 + 1);
        if (n == "x.get")
        {
            size_t i = op.mod(5, S.r), j = op.mod(6, S.c); if (u & 1) i = beyond(S.r, w); else j = beyond(S.c, w); if (u & 2) { i = beyond(S.r, w); j = beyond(S.c, w); }
            T g; { Sut q; const M& x = *s[a]; g = u & 4 ? x.get(i, j) : x(i, j); } need_default(g, nm);
        }
        else if (n == "x.gete") { size_t i = beyond(S.v.size(), w); T g; { Sut q; const M& x = *s[a]; g = u & 1 ? x.get(i) : x(i); } need_default(g, nm); }
        else if (n == "x.ref")
        {
            size_t i = op.mod(5, S.r), j = op.mod(6, S.c); if (u & 1) i = beyond(S.r, w); else j = beyond(S.c, w);
            T g, g2; { Sut q; g = (*s[a])(i, j); (*s[a])(i, j) = tv; g2 = (*s[a])(i, j); const M& x = *s[a]; (void) x; }
            need_default(g, nm); need_default(g2, nm);
            { Sut q; const M& x = *s[a]; g = x(i, j); } need_default(g, nm);
        }
        else if (n == "x.refe")
        {
            size_t i = beyond(S.v.size(), w); T g, g2; { Sut q; g = (*s[a])(i); (*s[a])(i) = tv; g2 = (*s[a])(i); }
            need_default(g, nm); need_default(g2, nm);
        }
        else if (n == "x.row" || n == "x.col")
        {
            size_t k = beyond(n == "x.row" ? S.r : S.c, w); Mo o;
            { Sut q; M t = n == "x.row" ? s[a]->row(k) : s[a]->col(k); o.r = t.no_rows(); o.c = t.no_cols(); o.v.clear(); if (t.size()) o.r = 999; }
            if (o.r != 0 || o.c != 0) rt_fail("wrong-result", "%s: not empty", nm);
        }
        else if (n == "x.vec")
        {
            size_t k = beyond(u & 1 ? S.r : S.c, w); std::vector<T> g;
            { Sut q; std::vector<T> t = u & 1 ? s[a]->get_row_as_vec(k) : s[a]->get_col_as_vec(k); SutOff off; g = t; }
            for (auto& e : g) need_default(e, nm);
        }
        else if (n == "x.setrow" || n == "x.setcol")
        {
            if (b == a) b = (b + 1) % K; ensure(b, op); bool row = n == "x.setrow"; bool rv; size_t lim = row ? S.r : S.c, need = row ? S.c : S.r;
            size_t k = beyond(lim, w);
            if ((u & 1) && m[b].v.size() >= need && need > 1) { { Sut q; *s[b] = M(1, need - 1, tv); } m[b] = Mo(1, need - 1, tv); }
            if ((u & 1) && m[b].v.size() < need) k = op.mod(5, lim);
            { Sut q; rv = row ? s[a]->set_row(k, *s[b]) : s[a]->set_col(k, *s[b]); }
            if (rv) rt_fail("wrong-result", "%s reported success", nm);
        }
        else if (n == "x.swap")
        {
            bool row = u & 1; size_t lim = row ? S.r : S.c, i = op.mod(5, lim), j = beyond(lim, w); if (u & 2) std::swap(i, j);
            { Sut q; if (row) s[a]->swap_rows(i, j); else s[a]->swap_cols(i, j); }
        }
        else if (n == "x.cut")
        {
            size_t len = S.vec() ? S.v.size() : S.c; size_t k = beyond(len, w); if (k == len) k = len + 1; Mo o; size_t sz;
            { Sut q; M t = u % 4 == 0 ? s[a]->left(k) : u % 4 == 1 ? s[a]->right(k) : u % 4 == 2 ? s[a]->mid(op.mod(5, len), beyond(len, w)) : s[a]->mid(len > 1 ? 1 + op.mod(5, len - 1) : len, 0); sz = t.size(); }
            if (sz) rt_fail("wrong-result", "%s: a cut outside the matrix is not empty", nm);
        }
        else if (n == "x.shrink")
        {
            if (S.r < 2 || S.c < 2) { { Sut q; *s[a] = M(3, 3, tv); } m[a] = Mo(3, 3, tv); }
            size_t i = u & 1 ? beyond(S.r, w) : op.mod(5, S.r), j = u & 1 ? op.mod(6, S.c) : beyond(S.c, w); bool same;
            { Sut q; M t = s[a]->shrink(i, j); same = t == *s[a]; }
            if (!same) rt_fail("wrong-result", "%s: not the unchanged matrix", nm);
        }
        else if (n == "x.reshape")
        {
            size_t sz; size_t r = S.r + 1, c = S.c; { Sut q; M t = s[a]->reshape(r, c); sz = t.size(); }
            if (sz) rt_fail("wrong-result", "%s: an impossible reshape is not empty", nm);
        }
        else if (n == "x.mismatch")
        {
            if (b == a) b = (b + 1) % K;
            size_t mr = S.r + 1 + op.mod(5, 3), mc = u & 8 ? S.c : S.c + 1;
            if (op.mod(6, 3) == 0) { if (S.r != S.c) { mr = S.c; mc = S.r; } else if (S.r > 1) { mr = op.mod(5, 2) ? 1 : S.r * S.c; mc = S.r * S.c / mr; } } // the same number of elements in another shape
            { Sut q; if (live[b]) s[b]->~M(); live[b] = true; new (s[b]) M(mr, mc, tv); } m[b] = Mo(mr, mc, tv);
            if (!live[b]) return;
            size_t sz = 0;
            int l = u & 16 ? b : a, r = u & 16 ? a : b;
            { Sut q;
              switch (u % 6)
              {
              case 0: { M t = *s[l] + *s[r]; sz = t.size(); } break;
              case 1: { M t = *s[l] - *s[r]; sz = t.size(); } break;
              case 2: { M t = *s[l] * *s[r]; sz = t.size(); } break;
              case 3: { M t = *s[l] / *s[r]; sz = t.size(); } break;
              case 4: *s[l] += *s[r]; break;
              default: *s[l] -= *s[r]; break;
              } }
            if (sz) rt_fail("wrong-result", "%s: operands of different shape give a result", nm);
        }
        else if (n == "x.matmul")
        {
            if (b == a) b = (b + 1) % K; { Sut q; if (live[b]) s[b]->~M(); live[b] = true; new (s[b]) M(S.c + 1 + op.mod(5, 3), 1 + op.mod(6, 3), tv); } m[b] = Mo(S.c + 1 + op.mod(5, 3), 1 + op.mod(6, 3), tv);
            size_t sz; { Sut q; M t = susa::matmul(*s[a], *s[b]); sz = t.size(); }
            if (sz) rt_fail("wrong-result", "%s: operands that do not conform give a result", nm);
        }
        else if (n == "x.emptyget")
        {
            T g1, g2, g3; { Sut q; const M& x = *s[a]; g1 = x.get(op.mod(5, 3)); g2 = x.get(0, op.mod(5, 3)); g3 = (*s[a])(op.mod(5, 3), 0); }
            need_default(g1, nm); need_default(g2, nm); need_default(g3, nm);
        }
        else if (n == "x.emptycut")
        {
            size_t sz; { Sut q; M t = u % 3 == 0 ? s[a]->left(1) : u % 3 == 1 ? s[a]->right(1) : s[a]->mid(0, 0); sz = t.size(); }
            if (sz) rt_fail("wrong-result", "%s: a cut of an empty matrix is not empty", nm);
        }
        else if (n == "x.emptymm")
        {
            if (b == a) b = (b + 1) % K; ensure(b, op); size_t sz;
            { Sut q; M t = u % 3 == 0 ? susa::matmul(*s[a], *s[b]) : u % 3 == 1 ? susa::matmul(*s[b], *s[a]) : susa::transpose(*s[a]); sz = t.size(); }
            if (sz) rt_fail("wrong-result", "%s: product of an empty matrix is not empty", nm);
        }
        else if (n == "x.emptyfn")
        {
            size_t sz = 0;
            { Sut q;
              switch (op.mod(5, 6))
              {
              case 0: { M t = susa::flipud(*s[a]); sz = t.size(); } break;
              case 1: { M t = susa::fliplr(*s[a]); sz = t.size(); } break;
              case 2: { M t = susa::concat(*s[a], *s[a]); sz = t.size(); } break;
              case 3: { M t = susa::upsample(*s[a], 2); sz = t.size(); } break;
              case 4: { M t = susa::downsample(*s[a], 2); sz = t.size(); } break;
              default: { if constexpr (Conv<T>::cplx) { susa::matrix<std::complex<float>> t = (susa::matrix<std::complex<float>>) *s[a]; sz = t.size(); } else { susa::matrix<float> t = (susa::matrix<float>) *s[a]; sz = t.size(); } } break;
              } }
            if (sz) rt_fail("wrong-result", "%s: a function of an empty matrix gives elements", nm);
        }
        else if (n == "x.zero")
        {
            // there is no matrix of no rows or columns
            size_t r = u & 1 ? 0 : 1 + op.mod(5, 4), c = u & 2 ? 0 : 1 + op.mod(6, 4), sz = 0; bool rv = false; if (r && c) (u & 4 ? r : c) = 0;
            switch (op.mod(3, 7))
            {
            case 0: { Sut q; M t(r, c); sz = t.size(); } break;
            case 1: { Sut q; M t(r, c, tv); sz = t.size(); } break;
            case 2: { Sut q; M t(std::make_tuple(r, c)); sz = t.size(); } break;
            case 3: { Sut q; M t(std::make_tuple(r, c), tv); sz = t.size(); } break;
            case 4: { Sut q; rv = s[a]->resize(r, c); } break;
            case 5: { Sut q; M t = s[a]->left(0); sz = t.size(); } break;
            default: { Sut q; M t = s[a]->right(0); sz = t.size(); } break;
            }
            if (sz || rv) rt_fail("wrong-result", "%s: a matrix of no rows or columns has elements", nm);
        }
        else if (n == "x.emptyop")
        {
            if (b == a) b = (b + 1) % K; ensure(b, op); size_t sz = 0;
            { Sut q;
              switch (u % 6)
              {
              case 0: { M t = *s[a] + *s[b]; sz = t.size(); } break;
              case 1: { M t = *s[a] - tv; sz = t.size(); } break;
              case 2: { M t = *s[b] * *s[a]; sz = t.size(); } break;
              case 3: { M t = tv + *s[a]; sz = t.size(); } break;
              case 4: *s[a] += *s[b]; break;
              default: *s[b] -= *s[a]; break;
              } }
            if (sz) rt_fail("wrong-result", "%s: arithmetic with an empty matrix gives a result", nm);
        }
        else rt_internal("unknown misuse %s", nm);
        (void) d;
        check_all(nm);
    }
};
