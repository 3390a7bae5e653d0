// Records facts about the building blocks: blades of every metric, rationals, words, powers,
// stacks and sorting (checked by spec/TraceFacts.tla).   facts <area> <parameter> [file]
#include "fp.hpp"
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <gal/algorithm.hpp>
#include <gal/numeric.hpp>
#ifdef AREA_BLADE
#    include <gal/geometric_algebra.hpp>
#endif
#ifdef AREA_STACK
#    include <gal/stack.hpp>
#endif
#ifdef AREA_CONST
#    include <gal/cga.hpp>
#    include <gal/pga.hpp>
#    include <gal/pga2.hpp>
#    include <gal/vga.hpp>
#endif
#ifdef AREA_CRC
#    include <gal/crc.hpp>
#endif
#include <sstream>
#include <string>
#include <vector>

static long id = 0;
static unsigned long long rng_s = 88172645463325252ull;
static unsigned long long rng()
{
    rng_s ^= rng_s << 13;
    rng_s ^= rng_s >> 7;
    rng_s ^= rng_s << 17;
    return rng_s;
}
static std::string n(long long x) { return std::to_string(x); }
static void open(std::string& s, char const* k) { s = "{\"id\":" + n(id++) + ",\"k\":\"" + k + "\""; }
static void close(std::string& s)
{
    s += "}\n";
    std::fputs(s.c_str(), stdout);
}

#ifdef AREA_BLADE
template <typename P>
static std::string row(uint32_t a, uint32_t count)
{
    std::string s = "[";
    for (uint32_t b = 0; b != count; ++b)
    {
        auto r = P::product(a, b);
        s += (b ? ",[" : "[") + n(r.second == 0 ? 0 : r.first) + "," + n(r.second) + "]";
    }
    return s + "]";
}
template <typename M>
static std::string elements(M const& m)
{
    std::string s = "[";
    for (gal::width_t i = 0; i != m.size.term; ++i) { s += (i ? "," : "") + n(m.terms[i].element); }
    return s + "]";
}
template <typename M>
static std::string blade_of(M const& m)
{
    return "[" + n(m.terms[0].element) + "," + n(m.size.mon == 1 && m.mons[0].q.den == 1 && m.mons[0].count == 0 ? m.mons[0].q.num : 99) + "]";
}
template <int P, int V, int R>
static void metric()
{
    using A = gal::algebra<gal::metric<P, V, R>>;
    constexpr uint32_t count = 1u << (P + V + R);
    std::string sig = ",\"p\":" + n(P) + ",\"v\":" + n(V) + ",\"r\":" + n(R), s;
    for (uint32_t a = 0; a != count; ++a)
    {
        open(s, "blade");
        s += sig + ",\"a\":" + n(a) + ",\"gp\":" + row<typename A::geometric>(a, count)
             + ",\"ep\":" + row<typename A::exterior>(a, count) + ",\"lc\":" + row<typename A::contract>(a, count)
             + ",\"sip\":" + row<typename A::symmetric_inner>(a, count);
        gal::mv<A, 0, 1, 1> m{gal::mv_size{0, 1, 1}, {}, {gal::mon{gal::one, gal::zero, 0, 0}}, {gal::term{1, 0, a}}};
        s += ",\"rev\":" + n(gal::detail::reverse(m).mons[0].q.num);
        s += ",\"dual\":" + blade_of(gal::detail::poincare_dual(m));
        close(s);
    }
    open(s, "span");
    s += sig + ",\"ps\":" + blade_of(A::pseudoscalar) + ",\"psinv\":" + blade_of(A::pseudoscalar_inv) + ",\"even\":" + elements(A::even_mv(0));
    if constexpr (P + V + R >= 2) { s += ",\"biv\":" + elements(A::bivector_mv(0)); }
    else { s += ",\"biv\":[]"; }
    close(s);
}
// Reversion, dual and selection of a full multivector; the rows of some blades.
template <int P, int V, int R>
static void high(int rows)
{
    using A = gal::algebra<gal::metric<P, V, R>>;
    constexpr uint32_t count = 1u << (P + V + R);
    std::string sig = ",\"p\":" + n(P) + ",\"v\":" + n(V) + ",\"r\":" + n(R), s;
    static gal::mv<A, 0, count, count> m{};
    m.size = gal::mv_size{0, count, count};
    for (uint32_t a = 0; a != count; ++a)
    {
        m.mons[a]  = gal::mon{gal::rat{static_cast<int>(a) + 1, 1}, gal::zero, 0, 0};
        m.terms[a] = gal::term{1, a, a};
    }
    auto all = [](auto const& x) {
        std::string t = "[";
        for (gal::width_t i = 0; i != x.size.term; ++i)
        {
            auto const& q = x.mons[x.terms[i].mon_offset];
            t += (i ? ",[" : "[") + n(x.terms[i].element) + "," + n(x.terms[i].count == 1 && q.count == 0 && q.q.den == 1 ? q.q.num : 999) + "]";
        }
        return t + "]";
    };
    open(s, "unary");
    s += sig + ",\"rev\":" + all(gal::detail::reverse(m)) + ",\"dual\":" + all(gal::detail::poincare_dual(m)) + ",\"grd\":[";
    for (int g = 0; g <= P + V + R; ++g) { s += (g ? "," : "") + all(m.select_grade(g)); }
    s += "]";
    close(s);
    for (int i = 0; i != rows; ++i)
    {
        // any blade, one of many generators, one of few
        uint32_t a = i % 3 == 0 ? rng() % count : i % 3 == 1 ? (rng() | rng()) % count : (count - 1) ^ (1u << (rng() % (P + V + R)));
        if (i == 5) { a = count - 1; }
        open(s, "blade");
        s += sig + ",\"a\":" + n(a) + ",\"gp\":" + row<typename A::geometric>(a, count)
             + ",\"ep\":" + row<typename A::exterior>(a, count) + ",\"lc\":" + row<typename A::contract>(a, count)
             + ",\"sip\":" + row<typename A::symmetric_inner>(a, count);
        gal::mv<A, 0, 1, 1> b{gal::mv_size{0, 1, 1}, {}, {gal::mon{gal::one, gal::zero, 0, 0}}, {gal::term{1, 0, a}}};
        s += ",\"rev\":" + n(gal::detail::reverse(b).mons[0].q.num);
        s += ",\"dual\":" + blade_of(gal::detail::poincare_dual(b));
        close(s);
    }
    open(s, "span");
    s += sig + ",\"ps\":" + blade_of(A::pseudoscalar) + ",\"psinv\":" + blade_of(A::pseudoscalar_inv) + ",\"even\":" + elements(A::even_mv(0));
    s += ",\"biv\":" + elements(A::bivector_mv(0));
    close(s);
}
template <int D, int P, int V>
static void metrics_pv()
{
    metric<P, V, D - P - V>();
    if constexpr (V < D - P) { metrics_pv<D, P, V + 1>(); }
}
template <int D, int P>
static void metrics_p()
{
    metrics_pv<D, P, 0>();
    if constexpr (P < D) { metrics_p<D, P + 1>(); }
}
#endif

#ifdef AREA_RAT
using gal::rat;
struct bop { char const* name; rat (*f)(rat, rat); };
struct cop { char const* name; bool (*f)(rat, rat); };
static bop const bops[] = {
    {"add", [](rat a, rat b) -> rat { return a + b; }}, {"sub", [](rat a, rat b) -> rat { return a - b; }},
    {"mul", [](rat a, rat b) -> rat { return a * b; }}, {"div", [](rat a, rat b) -> rat { return a / b; }},
    {"cadd", [](rat a, rat b) { a += b; return a; }}, {"cmul", [](rat a, rat b) { a *= b; return a; }},
    {"cdiv", [](rat a, rat b) { a /= b; return a; }},
    {"imul", [](rat a, rat b) -> rat { return static_cast<int>(b.num) * a; }},
    {"divi", [](rat a, rat b) -> rat { return a / static_cast<int>(b.num); }},
    {"neg", [](rat a, rat) -> rat { return -a; }}, {"neg2", [](rat a, rat) { return a.negation(); }}, {"rec", [](rat a, rat) { return a.reciprocal(); }},
#ifndef LEAN
    {"gate", [](rat a, rat) -> rat { return gal::detail::overflow_gate(a); }},
#endif
};
static cop const cops[] = {
    {"eq", [](rat a, rat b) { return a == b; }}, {"ne", [](rat a, rat b) { return a != b; }},
    {"lt", [](rat a, rat b) { return a < b; }}, {"gt", [](rat a, rat b) { return a > b; }},
    {"nei", [](rat a, rat b) { return a != static_cast<int>(b.num); }},
    {"iszero", [](rat a, rat) { return a.is_zero(); }}, {"isunit", [](rat a, rat) { return a.is_unit(); }}};
static void compare_batch(rat x, std::vector<rat> const& ys)
{
    std::string s;
    for (auto const& o : cops)
    {
        open(s, "rcmp");
        s += std::string(",\"op\":\"") + o.name + "\",\"x\":[" + n(x.num) + "," + n(x.den) + "],\"f\":[";
        bool first = true;
        for (auto y : ys)
        {
            s += (first ? "[" : ",[") + n(y.num) + "," + n(y.den) + "," + n(o.f(x, y)) + "]";
            first = false;
        }
        s += "]";
        close(s);
    }
}
static void rat_batch(rat x, std::vector<rat> const& ys)
{
    std::string s;
    auto xs = [&] { return ",\"x\":[" + n(x.num) + "," + n(x.den) + "]"; };
    for (auto const& o : bops)
    {
        std::string op = o.name;
        bool unary = op == "neg" || op == "neg2" || op == "rec" || op == "gate";
        open(s, "rat");
        s += ",\"op\":\"" + op + "\"" + xs() + ",\"f\":[";
        bool first = true;
        for (auto y : ys)
        {
            if ((op == "div" || op == "cdiv" || op == "divi") && y.num == 0) { continue; }
            if (op == "rec" && x.num == 0) { continue; }
            auto z = o.f(x, y);
            s += (first ? "[" : ",[") + n(y.num) + "," + n(y.den) + "," + n(z.num) + "," + n(z.den) + "]";
            first = false;
            if (unary) { break; }
        }
        s += "]";
        if (!first) { close(s); }
    }
    compare_batch(x, ys);
    open(s, "rflt");
    double v = x;
    float w = x;
    s += ",\"f\":[[" + n(x.num) + "," + n(x.den) + "," + n(std::llround(v * 1000)) + "],[" + n(x.num) + "," + n(x.den) + "," + n(std::llround(static_cast<double>(w) * 1000)) + "]]";
    close(s);
}
static void rats(int m, int big)
{
    std::vector<rat> grid;
    for (int d = 1; d <= m; ++d) { for (int k = -m; k <= m; ++k) { grid.push_back(rat{k, d}); } }
    for (auto x : grid) { rat_batch(x, grid); }
    auto pick = [&](int limit) { return static_cast<int>(rng() % limit); };
    for (int i = 0; i != big; ++i)
    {
        std::vector<rat> ys;
        int lim = i % 4 == 0 ? 20000 : i % 4 == 1 ? 1500 : i % 4 == 2 ? 300 : 31000;
        rat x{pick(2 * lim) - lim, 1 + pick(lim)};
        for (int j = 0; j != 12; ++j) { ys.push_back(rat{pick(2 * lim) - lim, 1 + pick(lim)}); }
        for (int j = 0; j != 12; ++j) { ys.push_back(rat{pick(60) - 30, 1 + pick(40)}); }
        // related to x: the same denominator or numerator, the negation, the reciprocal, a multiple
        int near = 1 + pick(lim);
        for (int num : {near, -near, static_cast<int>(x.num), static_cast<int>(-x.num), static_cast<int>(x.num) + 1, static_cast<int>(x.den)}) { ys.push_back(rat{num, static_cast<int>(x.den)}); }
        for (int den : {1 + pick(lim), static_cast<int>(x.den) + 1}) { ys.push_back(rat{static_cast<int>(x.num), den}); }
        if (x.num != 0) { ys.push_back(rat{static_cast<int>(x.num > 0 ? x.den : -x.den), static_cast<int>(std::abs(x.num))}); }
        for (int f : {2, 3, 7}) { ys.push_back(rat{1 + pick(40), static_cast<int>(x.den) * f}); ys.push_back(rat{static_cast<int>(x.num) * f, static_cast<int>(x.den) * f}); }
        if (x.num == 0) { continue; }
        // stay within 32 bits
        std::vector<rat> ok;
        for (auto y : ys)
        {
            auto big2 = [](long long a, long long b) { return std::llabs(a * b) > 1000000000ll; };
            if (!big2(x.num, y.den) && !big2(x.den, y.num) && !big2(x.num, y.num) && !big2(x.den, y.den)) { ok.push_back(y); }
        }
        if (!ok.empty()) { rat_batch(x, ok); }
    }
    // neighbouring fractions, which differ in the last place only
    for (int i = 0; i != 4 * big; ++i)
    {
        int k = 2 + pick(i % 4 == 0 ? 40000 : i % 4 == 1 ? 5000 : 800), sg = i % 5 == 4 ? -1 : 1;
        rat x{sg * k, k + 1};
        std::vector<rat> ys{rat{sg * (k + 1), k + 2}, rat{sg * (k - 1), k}, rat{sg * k, k + 2}, rat{sg * (k + 1), k + 1}, rat{sg * k, k + 1},
                            rat{-sg * k, k + 1}, rat{sg * (k + 1), k}, rat{sg * (k / 2), k / 2 + 1}};
        compare_batch(x, ys);
        compare_batch(ys[0], {x, ys[1], ys[0]});
        int a = 1 + pick(20000), b = 1 + pick(20000);
        compare_batch(rat{sg * a, b}, {rat{sg * (a + 1), b}, rat{sg * a, b + 1}, rat{sg * (a - 1), b}, rat{sg * 2 * a, 2 * b}, rat{sg * 3 * a, 3 * b}, rat{sg * a, 1}});
    }
    // results on both sides of the denominator from which approximation is allowed
    for (int m : {960, 990, 1001, 1020, 1022, 1023, 1024, 1025, 1026, 1035, 1080, 2046, 2048})
    {
        for (int d = 1; d * d <= m; ++d)
        {
            if (m % d) { continue; }
            int a = 1 + pick(12), b = 1 + pick(12);
            rat_batch(rat{a, d}, {rat{b, m / d}, rat{-b, m / d}, rat{m / d, b}, rat{1, m / d}, rat{b, m}, rat{m, b}});
            rat_batch(rat{-b, m / d}, {rat{a, d}, rat{d, a}, rat{-1, d}, rat{a, 1}, rat{d, 1}});
        }
    }
    std::string s;
    // the approximation itself, over large irreducible fractions
    open(s, "rat");
    for (int i = 0; i != 40 * big; ++i)
    {
        int den = 1024 + pick(i % 2 ? 100000 : 20000000);
        rat x{(i % 3 == 0 ? pick(50) : pick(i % 5 == 0 ? 100000000 : 3 * den)) - (i % 7 ? 0 : den), den};
        if (x.num == 0) { continue; }
#ifndef LEAN
        auto z = gal::detail::overflow_gate(x);
#else
        auto z = x * rat{1, 1};
#endif
        open(s, "rat");
        s += ",\"op\":\"gate\",\"x\":[" + n(x.num) + "," + n(x.den) + "],\"f\":[[0,1," + n(z.num) + "," + n(z.den) + "]]";
        close(s);
    }
}
#endif

static std::string limbs(unsigned long long w, int k)
{
    std::string s = "[";
    for (int i = 0; i != k; ++i, w >>= 16) { s += (i ? "," : "") + n(w & 0xffff); }
    return s + "]";
}
#ifdef AREA_WORD
template <typename F>
static void words(char const* op, std::vector<unsigned long long> const& ws, int lim, F f)
{
    std::string s;
    for (size_t i = 0; i < ws.size(); i += 64)
    {
        open(s, "word");
        s += std::string(",\"op\":\"") + op + "\",\"f\":[";
        for (size_t j = i; j < ws.size() && j < i + 64; ++j)
        {
            s += (j > i ? ",[" : "[") + limbs(ws[j], lim) + "," + limbs(f(ws[j]), lim) + "]";
        }
        s += "]";
        close(s);
    }
}
static void word_facts(int count)
{
    std::vector<unsigned long long> w32, w64, nz32, half, pos;
    for (unsigned i = 0; i != 600; ++i) { w32.push_back(i); w64.push_back(i); }
    for (int i = 0; i != 64; ++i)
    {
        for (int d = -2; d <= 2; ++d)
        {
            unsigned long long x = (1ull << i) + d;
            if (i < 63) { w64.push_back(x); }
            if (i < 32) { w32.push_back(x & 0xffffffffu); }
        }
    }
    for (int i = 0; i != count; ++i)
    {
        int sh = rng() % 32;
        w32.push_back((rng() & 0xffffffffu) >> sh);
        w64.push_back(rng() >> (1 + rng() % 63));
    }
    for (auto x : w32)
    {
        if (x) { nz32.push_back(x); }
        if (x <= (1ull << 31)) { half.push_back(x); }
        if (x < 0x7ffffff0ull) { pos.push_back(x); }
    }
    std::vector<unsigned long long> w64h;
    for (auto x : w64) { if (x <= (1ull << 63)) { w64h.push_back(x); } }
    words("pop", w32, 2, [](unsigned long long x) { return gal::pop_count(static_cast<uint32_t>(x)); });
    words("top", nz32, 2, [](unsigned long long x) { return gal::leading_set_index(static_cast<uint32_t>(x)); });
    words("np2", half, 2, [](unsigned long long x) { return gal::next_pow_2(static_cast<uint32_t>(x)); });
    words("np2", w64h, 4, [](unsigned long long x) { return gal::next_pow_2(static_cast<uint64_t>(x)); });
    words("rot", w32, 2, [](unsigned long long x) { return gal::rot32(static_cast<uint32_t>(x)); });
    words("even", pos, 2, [](unsigned long long x) { return gal::next_even(static_cast<uint32_t>(x)); });
}
template <int N>
static void power()
{
    std::string s;
    open(s, "pow");
    s += ",\"n\":" + n(N) + ",\"f\":[";
    for (int i = 0; i != 24; ++i)
    {
        int x = i < 12 ? i + 1 : static_cast<int>(1 + rng() % (Fp::P - 1));
        s += (i ? ",[" : "[") + n(x) + "," + n(gal::pow(Fp{x}, std::integral_constant<int, N>{}, std::integral_constant<int, 1>{}).v) + "]";
    }
    s += "]";
    close(s);
}
template <int... N>
static void powers(std::integer_sequence<int, N...>) { (power<N - 130>(), ...); }
template <int N, int D>
static void roots()
{
    // pow(x^D, N/D) = x^N
    std::string s;
    open(s, "root");
    s += ",\"n\":" + n(N) + ",\"f\":[";
    for (int x = 1; x <= 9; ++x)
    {
        double b = 1, c = 1;
        for (int i = 0; i != D; ++i) { b *= x; }
        for (int i = 0; i != (N < 0 ? -N : N); ++i) { c *= x; }
        if (c > 1e6) { break; }
        double r = gal::pow(b, std::integral_constant<int, N>{}, std::integral_constant<int, D>{});
        s += (x > 1 ? ",[" : "[") + n(x) + "," + n(std::llround(r * (N < 0 ? 1000000 : 1000))) + "]";
    }
    s += "]";
    close(s);
}
#endif
#ifdef AREA_CRC
static void crcs(int count)
{
    std::string s;
    auto emit = [&](char const* op, std::vector<unsigned long long> const& ws, auto f) {
        for (size_t i = 0; i < ws.size(); i += 32)
        {
            open(s, "word");
            s += std::string(",\"op\":\"") + op + "\",\"f\":[";
            for (size_t j = i; j < ws.size() && j < i + 32; ++j) { s += (j > i ? ",[" : "[") + limbs(ws[j], 2) + "," + limbs(f(ws[j]), 2) + "]"; }
            s += "]";
            close(s);
        }
    };
    std::vector<unsigned long long> b, w;
    for (unsigned i = 0; i != 256; ++i)
    {
        b.push_back(i);
        for (int k = 0; k != 4; ++k) { w.push_back(static_cast<unsigned long long>(i) << (8 * k)); }
    }
    for (int i = 0; i != count; ++i) { w.push_back(rng() & 0xffffffffu); }
#ifndef LEAN
    emit("crc8", b, [](unsigned long long x) { return gal::detail::crc32_8(static_cast<uint8_t>(x)); });
#endif
    emit("crc", w, [](unsigned long long x) { return gal::detail::crc32(static_cast<uint32_t>(x)); });
}
#endif
#ifdef AREA_STACK
static void stacks(char const* file)
{
    std::ifstream in(file);
    std::string line;
    while (std::getline(in, line))
    {
        std::istringstream t(line);
        int count;
        t >> count;
        gal::detail::stack<int, 40> st;
        std::string s, ops, res;
        open(s, "stack");
        for (int i = 0; i != count; ++i)
        {
            std::string op;
            int k, r = 0;
            t >> op >> k;
            auto const& c = st;
            if (op == "push") { st.push(k); }
            else if (op == "pop") { r = st.pop(); }
            else if (op == "popn") { r = st.pop(static_cast<size_t>(k)); }
            else if (op == "peek") { r = i % 2 ? st.peek() : c.peek(); }
            else if (op == "peekn") { r = st.peek(static_cast<size_t>(k)); }
            else if (op == "at") { r = i % 2 ? st[k] : c[k]; }
            else if (op == "poke") { st.peek() = k; }
            else if (op == "clear") { st.clear(); }
            else if (op == "empty") { r = st.empty(); }
            ops += (i ? ",[\"" : "[\"") + op + "\"," + n(k) + "]";
            res += (i ? ",[" : "[") + n(r) + "," + n(static_cast<long long>(st.count)) + "]";
        }
        s += ",\"ops\":[" + ops + "],\"res\":[" + res + "]";
        close(s);
    }
}
#endif
#ifdef AREA_SORT
static std::string seq(std::vector<int> const& v)
{
    std::string s = "[";
    for (size_t i = 0; i != v.size(); ++i) { s += (i ? "," : "") + n(v[i]); }
    return s + "]";
}
static void sort_batch(char const* ord, std::vector<std::vector<int>> const& xs, bool ranges)
{
    std::string s;
    for (size_t i = 0; i < xs.size(); i += 40)
    {
        open(s, "sort");
        s += std::string(",\"ord\":\"") + ord + "\",\"f\":[";
        for (size_t j = i; j < xs.size() && j < i + 40; ++j)
        {
            auto y = xs[j];
            int from = ranges && !y.empty() ? static_cast<int>(rng() % y.size()) : 0;
            int to = ranges ? from + static_cast<int>(rng() % (y.size() - from + 1)) : static_cast<int>(y.size());
            int* f = y.data() + from;
            int* l = y.data() + to;
            if (!std::strcmp(ord, "lt")) { gal::detail::sort(f, l); }
            else if (!std::strcmp(ord, "gt")) { gal::detail::sort(f, l, [](int a, int b) { return a > b; }); }
            else { gal::detail::sort(f, l, [](int a, int b) { return (a & 3) < (b & 3); }); }
            s += (j > i ? ",[" : "[") + seq(xs[j]) + "," + seq(y) + "," + n(from) + "," + n(to) + "]";
        }
        s += "]";
        close(s);
    }
}
static void sorts(int depth, int count)
{
    std::vector<std::vector<int>> all{{}};
    for (size_t i = 0; i != all.size(); ++i)
    {
        if (static_cast<int>(all[i].size()) == depth) { continue; }
        for (int v = 0; v != 4; ++v) { auto y = all[i]; y.push_back(v); all.push_back(y); }
    }
    for (std::vector<int> y : {std::vector<int>{0, 1, 2, 3, 4, 5}, std::vector<int>{0, 1, 2, 3, 4, 4}})     // all orders of six
    {
        do { all.push_back(y); } while (std::next_permutation(y.begin(), y.end()));
    }
    std::vector<std::vector<int>> more;
    for (int i = 0; i != count; ++i)
    {
        std::vector<int> y(rng() % (i % 8 == 7 ? 80 : 24));
        int spread = i % 2 ? 6 : 50;
        for (auto& v : y) { v = static_cast<int>(rng() % spread) - (i % 3 == 2 ? spread / 2 : 0); }
        if (i % 5 == 3)     // ascending or descending but for one element
        {
            for (size_t j = 0; j != y.size(); ++j) { y[j] = static_cast<int>(i % 2 ? j : y.size() - j); }
            if (!y.empty()) { y[rng() % y.size()] = static_cast<int>(rng() % spread); }
        }
        more.push_back(y);
    }
    for (int len : {4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130})    // regular patterns
    {
        for (int pattern = 0; pattern != 8; ++pattern)
        {
            std::vector<int> y(static_cast<size_t>(len));
            for (int j = 0; j != len; ++j)
            {
                int mirrored = j < len / 2 ? j : len - j;
                y[static_cast<size_t>(j)] = pattern == 0 ? 7 : pattern == 1 ? j % 2 : pattern == 2 ? mirrored : pattern == 3 ? -mirrored
                    : pattern == 4 ? j % 5 : pattern == 5 ? j : pattern == 6 ? -j
                    : (j % 3 == 0 ? 2147483647 : j % 3 == 1 ? -2147483647 : static_cast<int>(rng() % 9) - 4);
            }
            more.push_back(y);
        }
    }
    for (auto ord : {"lt", "gt", "mod"})
    {
        sort_batch(ord, all, false);
        sort_batch(ord, more, false);
        sort_batch(ord, more, true);
    }
}
#endif

#ifdef AREA_CONST
// Units of the given scale, split into limbs of four decimal digits (sign, then most significant first).
static std::string digits(double x, double scale)
{
    long long r = std::llround(x * scale);
    bool neg = r < 0;
    if (neg) { r = -r; }
    std::vector<long long> l;
    for (int i = 0; i != 4; ++i, r /= 10000) { l.insert(l.begin(), r % 10000); }
    std::string s = "[" + n(neg ? -1 : 1);
    for (auto v : l) { s += "," + n(v); }
    return s + (r ? ",-1]" : "]");
}
template <typename T, typename E> static double scalar_part(E const& e) { return static_cast<double>(e.select(gal::elem_t{0})); }
#define CONST1(NS, NAME, EXPR, X) \
    { gal::scalar<gal::NS::NS##_algebra, T> x{static_cast<T>(X)}; \
      auto r = gal::NS::compute([](auto x) { return EXPR; }, x); \
      put(NAME, scalar_part<T>(r)); }
#define CONST(NAME, EXPR, X) CONST1(vga, NAME, EXPR, X) CONST1(pga, NAME, EXPR, X) CONST1(pga2, NAME, EXPR, X) CONST1(cga, NAME, EXPR, X)
template <typename T>
static void constants(double scale, int tol)
{
    using namespace gal;
    std::string s;
    auto put = [&](char const* name, double v) {
        open(s, "const");
        s += std::string(",\"name\":\"") + name + "\",\"tol\":" + n(tol) + ",\"cut\":" + n(scale > 1e10 ? 4 : 2) + ",\"v\":" + digits(v, scale);
        close(s);
    };
    CONST("pi", gal::PI * x, 1) CONST("pi", x * gal::PI, 1) CONST("pi", gal::PI / x, 1) CONST("pi", 2 * gal::PI * x / 2, 1)
    CONST("pi", (gal::PI / 3) * x, 3) CONST("invpi", x / gal::PI, 1)
    CONST("e", gal::E * x, 1) CONST("e", x * gal::E, 1) CONST("e", gal::E / x, 1) CONST("inve", x / gal::E, 1)
    CONST("sqrt2", sqrt(2 * x), 1) CONST("sqrt2", sqrt(x), 2) CONST("sqrt2", 1 / sqrt(x), 0.5) CONST("sqrt2", 2 / sqrt(x), 2)
    CONST("sin1", sin(x), 1) CONST("sin1", sin(x / 2), 2) CONST("sin1", -sin(x), -1) CONST("sin1", sin(2 * x), 0.5)
    CONST("cos1", cos(x), 1) CONST("cos1", cos(-x), 1) CONST("cos1", cos(x * x), 1) CONST("cos1", 1 * cos(3 * x), 1.0 / 3)
    CONST("tan1", tan(x), 1) CONST("tan1", -tan(-x), 1) CONST("tan1", sin(x) / cos(x), 1)
    CONST("half", sin((gal::PI / 6) * x), 1) CONST("half", cos((gal::PI / 3) * x), 1) CONST("one", tan((gal::PI / 4) * x), 1)
    CONST("third", 1 / x, 3) CONST("third", x / 3, 1) CONST("third", (x * x) / (3 * x), 1)
    CONST("one", sin(x) * sin(x) + cos(x) * cos(x), 0.7) CONST("one", sqrt(x) * sqrt(x) / x, 0.7)
}
#endif
int main(int argc, char** argv)
{
    int k = argc > 1 ? std::atoi(argv[1]) : 0;
    int seed = argc > 2 ? std::atoi(argv[2]) : 1;
    rng_s += 0x9e3779b97f4a7c15ull * static_cast<unsigned>(seed);
    for (int i = 0; i != 8; ++i) { rng(); }
#ifdef AREA_BLADE
#    if AREA_BLADE == 0
    high<3, 0, 0>(k); high<2, 1, 1>(k); high<4, 1, 0>(k); high<0, 3, 2>(k);
    high<6, 0, 0>(k); high<3, 3, 0>(k); high<4, 1, 1>(k); high<1, 4, 1>(k); high<2, 2, 2>(k);
    high<7, 0, 0>(k); high<4, 2, 1>(k); high<1, 3, 3>(k); high<0, 7, 0>(k);
    high<8, 0, 0>(k); high<4, 4, 0>(k); high<3, 3, 2>(k); high<6, 1, 1>(k); high<1, 7, 0>(k);
#    else
    metrics_p<AREA_BLADE, 0>();
#    endif
#endif
#ifdef AREA_RAT
    rats(k / 100, k % 100 * 10);
#endif
#ifdef AREA_WORD
    word_facts(k);
    powers(std::make_integer_sequence<int, 391>{});
    power<511>();
    power<512>();
    power<1023>();
    power<-1000>();
    power<1000>();
    power<12345>();
    roots<1, 2>();
    roots<3, 2>();
    roots<1, 3>();
    roots<2, 3>();
    roots<5, 2>();
    roots<7, 2>();
    roots<9, 2>();
    roots<4, 3>();
    roots<5, 3>();
    roots<8, 3>();
    roots<1, 4>();
    roots<3, 4>();
    roots<7, 4>();
    roots<2, 5>();
    roots<-1, 2>();
    roots<-3, 2>();
    roots<-5, 2>();
    roots<-1, 3>();
    roots<-2, 3>();
    roots<-4, 3>();
    roots<-1, 4>();
#endif
#ifdef AREA_CRC
    crcs(k);
#endif
#ifdef AREA_CONST
    constants<double>(1e15, 6);
    constants<float>(1e7, 8);
#endif
#ifdef AREA_STACK
    stacks(argv[3]);
#endif
#ifdef AREA_SORT
    sorts(k / 1000, k % 1000);
#endif
    return 0;
}
