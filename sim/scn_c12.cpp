// C12: text of matrices: printing to failing devices, parsing intact and damaged text.
#include <susa.h>
#include "hist.h"
#include <iostream>
#include <functional>
#include <sstream>
#include <streambuf>
#include <limits>
#include <cstring>
#include <cmath>
namespace {
enum { N_OK, N_ERROR, N_SHORT, N_THROW, N_DAMAGE, N_WELL, N_ROUND, N_LOCALE, N_CNT };
static const char* const NAMES[] = { "device_writes", "device_errors", "device_short_writes", "device_exceptions", "damaged_texts", "damaged_texts_still_well_formed", "round_trips", "foreign_number_formats" };
// a device that takes `room` bytes and then fails
struct Device : std::streambuf
{
    std::string got; long room; int kind; bool hit = false; int times;     // fails that many times and then accepts again
    Device(long r, int k, int t) : room(r), kind(k), times(t) {}
    void fail() { hit = true; if (times > 0 && --times == 0) room = -1; if (kind == 2) throw std::runtime_error("device"); }
    int_type overflow(int_type c) override
    {
        SutOff off; if (c == traits_type::eof()) return traits_type::not_eof(c);
        if (room >= 0 && (long) got.size() >= room) { fail(); return traits_type::eof(); }
        got.push_back((char) c); return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        SutOff off; std::streamsize k = room < 0 ? n : std::min<std::streamsize>(n, std::max<long>(0, room - (long) got.size()));
        got.append(s, (size_t) k); if (k < n) fail(); return k;
    }
};
template <class T> bool number(const std::string& t, T& v)
{
    size_t i = 0, d = 0, f = 0; if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++;
    while (i < t.size() && isdigit((unsigned char) t[i])) i++, d++;
    if (std::numeric_limits<T>::is_integer)
    {
        if (i != t.size() || !d || d > 18) return false; long x = atol(t.c_str());
        if (t[0] == '-' && !std::numeric_limits<T>::is_signed) return false;
        if (x < (long) std::numeric_limits<T>::min() || x > (long) std::numeric_limits<T>::max()) return false; v = (T) x; return true;
    }
    if (i < t.size() && t[i] == '.') { i++; while (i < t.size() && isdigit((unsigned char) t[i])) i++, f++; }
    if (!d && !f) return false;
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { i++; if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++; size_t e = 0; while (i < t.size() && isdigit((unsigned char) t[i])) i++, e++; if (!e || e > 3) return false; }
    if (i != t.size() || t.size() > 30) return false;
    double x = strtod(t.c_str(), nullptr); double m = std::fabs(x);
    double big = sizeof(T) > 4 ? 1e300 : 1e30; if (m != 0 && (m > big || m < 1 / big)) return false;
    v = (T) x; return true;
}
// strict reader of well-formed text
template <class T> bool strict(std::string t, size_t& r, size_t& c, std::vector<T>& rowmajor)
{
    if (t.find('\0') != std::string::npos) return false;
    size_t a = t.find_first_not_of(" \t"), b = t.find_last_not_of(" \t"); if (a == std::string::npos) return false; t = t.substr(a, b - a + 1);
    bool open = t[0] == '[', close = t.back() == ']'; if (open != close) return false; if (open) { if (t.size() < 3) return false; t = t.substr(1, t.size() - 2); }
    r = c = 0; rowmajor.clear(); std::string row; t += ';';
    for (char ch : t)
    {
        if (ch != ';' && ch != '\n') { row += ch; continue; }
        std::string tok; size_t k = 0; row += ' ';
        for (char q : row) { if (q == ' ' || q == '\t' || q == ',' || q == '\r') { if (!tok.empty()) { T v; if (!number<T>(tok, v)) return false; rowmajor.push_back(v); k++; tok.clear(); } } else tok += q; }
        if (!k || (r && k != c)) return false; c = k; r++; row.clear();
    }
    return true;
}
template <class T> T value(Rng& g)
{
    if (std::numeric_limits<T>::is_integer) { long top = sizeof(T) > 2 && g.chance(25) ? 999999999999999999 : 99999, lo = std::max<long>(-top, (long) std::numeric_limits<T>::min()), hi = std::min<long>(top, (long) std::numeric_limits<T>::max()); return g.chance(15) ? (T) lo : g.chance(15) ? (T) hi : g.chance(40) ? (T) g.below(10) : (T) g.range(lo, hi); }
    switch (g.below(6)) { case 0: return (T) g.range(-9, 9); case 1: return (T) (g.range(-4000, 4000) / 8.0); case 2: return (T) ((g.unit() - 0.5) * std::pow(10, (double) (sizeof(T) > 4 && g.chance(20) ? g.range(-290, 290) : g.range(-20, 20)))); case 3: return (T) -(g.unit()); case 4: return (T) 0; default: return (T) (g.unit() * 1e6); }
}
template <class T> struct Text
{
    typedef susa::matrix<T> M; typedef susa::matrix<std::complex<double>> M0;
    // what the object holds, through the public interface; checks that it is a valid object
    static std::string state(const M& m, const char* nm, bool vals, std::vector<T>* out = nullptr)
    {
        size_t r, c, n; { Sut q; r = m.no_rows(); c = m.no_cols(); n = m.size(); } if (n != r * c || n > 100000) rt_fail("bad-state", "%s leaves a matrix of shape %zux%zu with %zu elements", nm, r, c, n);
        std::string t = fmt("%zux%zu", r, c); if (out) out->clear();
        for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { T v; { Sut q; v = m.get(i, j); } if (out) out->push_back(v); if (vals && t.size() < 400) t += fmt(" %.17g", (double) v); }
        return t;
    }
    static void fill(M& m, size_t r, size_t c, const std::vector<T>& v) { Sut q; m = M(r, c, (T) 0); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) m(i, j) = v[i * c + j]; }
    static bool near(T a, T b, double rel) { if (a == b) return true; if (std::numeric_limits<T>::is_integer) return false; return std::fabs((double) a - (double) b) <= rel * std::max(std::fabs((double) a), std::fabs((double) b)); }
    static void expect(const M& m, size_t r, size_t c, const std::vector<T>& v, double rel, const char* nm, const std::string& text)
    {
        std::vector<T> got; state(m, nm, false, &got);
        std::string sh; for (char ch : text) sh += ch == '\n' ? std::string("\\n") : ch == '\r' ? std::string("\\r") : ch == '\t' ? std::string("\\t") : std::string(1, ch);
        if (m.no_rows() != r || m.no_cols() != c) rt_fail("wrong-result", "%s: \"%.150s\" is read as a %zux%zu matrix, it has %zu rows and %zu columns", nm, sh.c_str(), (size_t) m.no_rows(), (size_t) m.no_cols(), r, c);
        for (size_t k = 0; k < v.size(); k++) if (!near(got[k], v[k], rel)) rt_fail("wrong-result", "%s: element (%zu,%zu) of \"%.150s\" is read as %.19g instead of %.19g", nm, k / c, k % c, sh.c_str(), (double) got[k], (double) v[k]);
    }
    // reads text into m in one of the documented ways; retries without the fault
    static void parse(const Op& op, const Mode& md, M*& m, const std::string& t, int way)
    {
        if (way == 1 || way == 3) if (t.find('\0') != std::string::npos) way--;
        auto go = [&] { switch (way) { case 0: *m = t; break; case 1: *m = t.c_str(); break; case 2: { M x(t); std::swap(*m, x); } break; default: { M x(t.c_str()); *m = x; } break; } };
        Outcome o = sut_run(op, md.faults, go);
        if (o.out == O_EXC || (o.out == O_BADALLOC && !o.fired)) rt_fail("unexpected-exception", "reading text threw %s", o.what.c_str());
        if (o.fired) { state(*m, "a failed allocation while reading", false); Op n = op; n.fk = F_NONE; Outcome o2 = sut_run(n, false, go); if (o2.out != O_OK) rt_fail("unexpected-exception", "reading text threw %s", o2.what.c_str()); }
    }
    static std::string print(const M& m, int prec, int style = 0) { std::string s; Sut q; std::ostringstream o; o.imbue(std::locale::classic()); if (prec) o.precision(prec); if (style == 1) o << std::scientific; if (style == 2) o << std::fixed; if (style == 3) o << std::showpos; if (style == 4) o << std::uppercase << std::showpoint; o << m; { SutOff z; std::string t = o.str(); s = std::string(t.data(), t.size()); } return s; }
    static std::string compose(Rng& g, size_t r, size_t c, std::vector<T>& v)
    {
        static const char* const SEP[] = { " ", "  ", ",", ", ", "\t", " ,", "   " }; static const char* const ROW[] = { ";", "; ", " ;", "\n", ";\t", " ; ", "\n ", "\r\n" };
        std::string t; bool br = g.chance(70); if (g.chance(20)) t += " "; if (br) t += "["; if (g.chance(15)) t += " "; bool mix = g.chance(40); size_t s = (size_t) g.below(7), w = (size_t) g.below(8);
        for (size_t i = 0; i < r; i++)
        {
            if (i) t += ROW[mix ? (size_t) g.below(8) : w];
            for (size_t j = 0; j < c; j++)
            {
                if (j) t += SEP[mix ? (size_t) g.below(7) : s];
                T x = value<T>(g); std::string n; int f = (int) g.below(5);
                if (std::numeric_limits<T>::is_integer) n = fmt("%ld", (long) x); else n = f == 0 ? fmt("%g", (double) x) : f == 1 ? fmt("%.3e", (double) x) : f == 2 ? fmt("%.4f", std::fabs((double) x) < 1e6 ? (double) x : 0.25) : f == 3 ? fmt("%d", (int) g.range(-99, 99)) : std::string(g.chance(50) ? "." : "-.") + fmt("%d", (int) g.range(1, 99));
                if (n[0] != '-' && g.chance(10)) n = "+" + n;
                T y; if (!number<T>(n, y)) { n = "7"; y = 7; } v.push_back(y); t += n;
            }
        }
        if (g.chance(15)) t += " "; if (br) t += "]"; if (g.chance(20)) t += " "; return t;
    }
    static std::string damage(Rng& g, std::string t)
    {
        static const char B[] = "0123456789;;;  ,,\t\n\r[]+-.eEx\"\x80\xff/()nanif\0"; int k = (int) g.range(1, 4);
        while (k--)
        {
            size_t n = t.size(), i = n ? (size_t) g.below((long) n) : 0, l = 1 + (size_t) g.below(6);
            switch (g.below(8))
            {
            case 0: t = t.substr(0, i); break;                                      // truncated
            case 1: if (n) t.erase(i, l); break;                                    // lost
            case 2: if (n) t.insert(i, t.substr(i, l)); break;                      // duplicated
            case 3: if (n) t[i] = (char) (t[i] ^ (1 << g.below(8))); break;         // bit flip
            case 4: t.insert(t.begin() + (long) i, B[g.below((long) sizeof B - 1)]); break;
            case 5: if (n) t[i] = B[g.below((long) sizeof B - 1)]; break;
            case 6: if (n) std::swap(t[i], t[(size_t) g.below((long) n)]); break;   // reordered
            default: { std::string x; int q = (int) g.below(20); while (q--) x += B[g.below((long) sizeof B - 1)]; t.insert(i, x); } break;
            }
        }
        return t;
    }
    static std::string apply(const Op& op, const Mode& md)
    {
        const std::string& n = op.name; const char* nm = n.c_str(); Rng g((uint64_t) op.arg(0) * 64 + (uint64_t) op.arg(1)); size_t r = 1 + (size_t) op.mod(2, 5), c = 1 + (size_t) op.mod(3, 5); if (op.arg(2) == 63) r = 20 + (size_t) op.arg(3); else if (op.arg(3) == 63) c = 20 + (size_t) op.arg(2); else if (op.arg(2) == 62 && op.arg(3) > 50) r = c = 24; int way = op.mod(4, 4); std::string obs;
        if (op.arg(2) == 61 && op.arg(3) > 53) { static const size_t rc[][2] = { { 1, 9000 }, { 9000, 1 }, { 300, 40 }, { 2, 17000 }, { 17000, 2 }, { 1, 34000 }, { 34000, 1 }, { 260, 66 }, { 66, 260 }, { 150, 150 } }; r = rc[op.arg(3) - 54][0]; c = rc[op.arg(3) - 54][1]; }    // texts of more than 32767 and 65535 characters
        M* m; { Sut q; m = new M(); if (op.mod(5, 3)) *m = M(1 + op.mod(5, 4), 1 + op.mod(6, 3), (T) 5); }
        if (n == "x.round")
        {
            std::vector<T> v; for (size_t k = 0; k < r * c; k++) v.push_back(value<T>(g)); bool full = op.mod(7, 2); int style = (int) g.below(8); rt_count(N_ROUND);
            if (style == 2) for (auto& x : v) x = std::numeric_limits<T>::is_integer ? (T) g.below(99) : (T) (g.range(-4000, 4000) / 8.0);
            M a; if (g.chance(3)) { r = c = 0; v.clear(); } else fill(a, r, c, v);
            std::string t = print(a, full ? 17 : 0, style); parse(op, md, m, t, way); expect(*m, r, c, v, full ? 1e-7 * (sizeof(T) > 4 ? 1e-8 : 10) : 2e-5, nm, t);
            { Sut q; a = M(); } obs = state(*m, nm, true);
        }
        else if (n == "x.parse")
        {
            std::vector<T> v; std::string t = compose(g, r, c, v); parse(op, md, m, t, way); expect(*m, r, c, v, sizeof(T) > 4 ? 1e-13 : 1e-6, nm, t); obs = state(*m, nm, true);
        }
        else if (n == "x.damage")
        {
            std::vector<T> v; std::string t = damage(g, compose(g, r, c, v)); rt_count(N_DAMAGE); parse(op, md, m, t, way); obs = state(*m, nm, true);
            size_t sr, sc; if (strict<T>(t, sr, sc, v)) { rt_count(N_WELL); expect(*m, sr, sc, v, sizeof(T) > 4 ? 1e-13 : 1e-6, nm, t); }
            // the object stays usable
            std::vector<T> w(6, (T) 3); parse(op, md, m, "[3 3;3 3;3 3]", way); expect(*m, 3, 2, w, 0, nm, "[3 3;3 3;3 3]");
        }
        else if (n == "x.device")
        {
            std::vector<T> v; for (size_t k = 0; k < r * c; k++) v.push_back(value<T>(g)); fill(*m, r, c, v);
            int what = op.mod(0, 7); std::vector<T> vec; M0 cm;
            { Sut q; for (size_t k = 0; k < (r * c) % 7; k++) vec.push_back(v[k]); if (what == 5) { cm = M0(r, c, std::complex<double>(0, 0)); for (size_t k = 0; k < r * c; k++) cm(k) = std::complex<double>((double) v[k], -1); } }
            auto show = [&](std::ostream& o) { switch (what) { case 2: o << vec; break; case 3: o << std::make_pair(v[0], 2.5); break; case 4: o << std::make_tuple(std::cref(*m).get(), v[0], 7); break; case 5: o << cm; break; default: o << *m; } };
            std::string full; { Sut q; std::ostringstream o; o.imbue(std::locale::classic()); show(o); { SutOff z; std::string x = o.str(); full = std::string(x.data(), x.size()); } }
            long room = op.mod(7, 5) == 0 ? -1 : (long) g.below((long) full.size() + 3); int kind = op.mod(6, 3); bool mask = op.mod(5, 2), thrown = false;
            int times = op.mod(4, 3) == 0 ? 0 : 1 + op.mod(1, 2); Device dev(room, kind, times);
            {
                Sut q; std::ostream o(&dev); o.imbue(std::locale::classic()); if (mask) o.exceptions(std::ios::badbit);
                try { show(o); } catch (const std::exception&) { thrown = true; }
                std::ios::iostate st = o.rdstate(); SutOff z;
                rt_count(N_OK); if (dev.hit) rt_count(kind == 2 ? N_THROW : kind == 1 ? N_SHORT : N_ERROR);
                if (full.compare(0, dev.got.size(), dev.got) != 0) rt_fail("wrong-result", "a device that fails after %ld bytes holds \"%.100s\", which is not a prefix of \"%.100s\"", room, dev.got.c_str(), full.c_str());
                bool lost = dev.got.size() < full.size();
                if (lost && !(st & (std::ios::badbit | std::ios::failbit))) rt_fail("silent-loss", "%zu of %zu bytes reached the device, and the stream reports no error", dev.got.size(), full.size());
                if (lost && mask && !thrown) rt_fail("silent-loss", "the device failed, exceptions are enabled, and none was thrown");
                if (!lost && (thrown || st)) rt_fail("wrong-result", "everything was written but the stream reports state %d", (int) st);
            }
            expect(*m, r, c, v, 0, nm, full);
            std::string again; { Sut q; std::ostringstream o; o.imbue(std::locale::classic()); show(o); { SutOff z; std::string x = o.str(); again = std::string(x.data(), x.size()); } }
            if (again != full) rt_fail("wrong-result", "after a device failure the object prints differently"); obs = full;
            { Sut q; vec = std::vector<T>(); cm = M0(); }
        }
        { Sut q; delete m; }
        return obs;
    }
};
struct TextWorld : IWorld
{
    int task; explicit TextWorld(int t) : task(t) {}
    void apply(const Op& op, const Mode& md) override
    {
        std::string o;
        if (op.name == "x.list")
        {
            // complex numbers, and the printers of pairs and tuples
            Rng g((uint64_t) op.arg(0) * 64 + (uint64_t) op.arg(1)); size_t r = 1 + (size_t) op.mod(2, 3), c = 1 + (size_t) op.mod(3, 3); std::vector<std::complex<double>> v; susa::matrix<std::complex<double>> m; std::string s;
            { Sut q; m = susa::matrix<std::complex<double>>(r, c, std::complex<double>(0, 0)); std::ostringstream w; w.imbue(std::locale::classic()); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { v.push_back({ (double) g.range(-99, 99) / 4, (double) g.range(-99, 99) / 4 }); m(i, j) = v.back(); } w << m; { SutOff z; std::string t = w.str(); s = std::string(t.data(), t.size()); } }
            std::string t; for (char ch : s) if (ch != '[' && ch != ']') t += ch; std::istringstream in(t); in.imbue(std::locale::classic());
            for (size_t k = 0; k < v.size(); k++) { std::complex<double> z(1e9, 0); in >> z; if (!(std::abs(z - v[k]) < 1e-4)) rt_fail("wrong-result", "element %zu of the complex matrix \"%.150s\" is (%g,%g)", k, s.c_str(), v[k].real(), v[k].imag()); }
            { Sut q; m = susa::matrix<std::complex<double>>(); } o = s;
        }
        else switch (op.arg(7) % 7 == 6 ? 6 + (int) (op.arg(7) / 7) % 4 : op.mod(7, 7))
        {
        case 0: case 5: o = Text<double>::apply(op, md); break; case 1: case 6: o = Text<int>::apply(op, md); break; case 7: o = Text<long>::apply(op, md); break; case 8: o = Text<uint16_t>::apply(op, md); break; case 9: o = Text<unsigned>::apply(op, md); break; case 2: o = Text<uint8_t>::apply(op, md); break; case 3: o = Text<int8_t>::apply(op, md); break; default: o = Text<float>::apply(op, md); break;
        }
        if (md.emit) rt_obs(task, md.opidx, o.data(), o.size());
    }
    void check_all(const char*) override {}
    uint64_t bytes_held() override { return 0; }
    void destroy_all() override {}
};
const char* OPS[] = { "x.round", "x.round", "x.parse", "x.parse", "x.damage", "x.damage", "x.damage", "x.device", "x.device", "x.list" };
}
struct S : Scenario
{
    const char* id() override { return "C12"; }
    void gen(Plan& p, Rng& g) override
    {
        gen_heap(p, g);
        if (g.chance(12)) p.cfg["locale"] = g.range(1, 3);
        int nt = g.chance(65) ? 1 : 2; p.cfg["tasks"] = nt; p.cfg["threads"] = nt > 1; bool faults = g.chance(30);
        int n = (int) g.range(2, nt > 1 ? 10 : 18);
        for (int i = 0; i < n; i++)
        {
            Op o; o.task = (int) g.below(nt); o.name = OPS[g.below((long) (sizeof OPS / sizeof OPS[0]))]; for (int k = 0; k < 8; k++) o.a.push_back(g.below(k == 7 ? 70 : 64));
            if (faults && o.name != "x.device" && o.name != "x.list" && g.chance(35)) gen_fault(o, g);
            p.ops.push_back(o);
        }
        gen_schedule(p, g, nt, 20000);
    }
    int variants(const Plan&) override { return 2; }
    void tweak(const Plan& p, int v, RtCfg& c) override { if (v) { c.fill = (c.fill + 3) % 8; c.recycle = (c.recycle + 1) % 3; c.paint = p.c("paint", -1) == 1 ? 0xa5 : 1; c.hseed += 99; } }
    void exec(const Plan& p, int) override
    {
        foreign_locale((int) p.c("locale", 0)); if (p.c("locale", 0)) rt_count(N_LOCALE);
        History h(p); h.md.faults = true; h.md.emit = true;
        h.maker = [](int t) -> IWorld* { return new TextWorld(t); };
        h.rounds();
    }
    Verdict judge(const Plan&, std::vector<Run>& rs) override
    {
        for (auto& r : rs) { Verdict v = abnormal(r); if (!v.ok) return v; }
        std::map<std::pair<int, int>, std::string> a; for (auto& o : rs[0].obs) a[{ o.task, o.op }] = o.s;
        for (auto& o : rs[1].obs) if (a[{ o.task, o.op }] != o.s) return bad("memory-dependent", fmt("operation %d of task %d gives %.150s or %.150s depending on what the memory held before", o.op, o.task, a[{ o.task, o.op }].c_str(), o.s.c_str()));
        return Verdict();
    }
    std::vector<std::string> counters() override { return std::vector<std::string>(NAMES, NAMES + N_CNT); }
    bool nontrivial(const Plan&, std::vector<Run>& r) override { auto* x = r[0].r; return x->user_cnt[N_ERROR] || x->user_cnt[N_SHORT] || x->user_cnt[N_THROW] || x->user_cnt[N_DAMAGE] || x->f_nth || x->f_cap || x->f_outage; }
    const char* nontrivial_rule() override { return "a device failed, a text was damaged or a memory request failed"; }
};
Scenario* make_scenario() { return new S; }
