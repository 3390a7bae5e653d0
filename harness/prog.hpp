// Support for generated compute() programs: inputs from integer valuations, results as JSON.
#pragma once
#include "fp.hpp"
#include "user.hpp"
#include <array>
#include <cstdio>
#include <gal/cga.hpp>
#include <gal/pga.hpp>
#include <gal/pga2.hpp>
#include <gal/vga.hpp>
#include <string>
#include <tuple>

namespace vh
{
constexpr long long P = Fp::P;
template <typename T> struct io;
template <> struct io<Fp>
{
    static Fp in(int v) { return Fp{v}; }
    static int out(Fp v, long long) { return v.v; }
};
// Doubles carry small integers in; a result is a fraction with the denominator that the program
// bounds, so its residue can be recovered.  -1: not such a fraction.
template <> struct io<double>
{
    static double in(int v) { return v > P / 2 ? v - P : v; }
    static int out(double v, long long den)
    {
        double s = v * static_cast<double>(den);
        if (!(s < 4e15 && s > -4e15)) { return -1; }
        double r = std::nearbyint(s);
        double tol = 1e-9 * (s < 0 ? -s : s);
        if (std::fabs(s - r) > (tol > 1e-5 ? tol : 1e-5)) { return -1; }
        return (Fp{static_cast<long long>(r)} / Fp{den}).v;
    }
};

// A field by all of its names; disagreement spoils the record.
static bool differ = false;
template <typename T, typename... U>
T same(T const& x, U const&... y)
{
    if (!((x == y) && ...)) { differ = true; }
    return x;
}
template <typename X>
void kept(X const& x, int const* v)
{
    if constexpr (std::is_same_v<X, Fp> || std::is_same_v<X, double>) { same(x, io<X>::in(*v)); }
    else { for (size_t i = 0; i != X::size(); ++i) { same(x[i], io<typename X::value_t>::in(v[i])); } }
}

// Results: [[elements],[values]]
template <typename A, typename T, gal::elem_t... E>
void put(std::string& s, gal::entity<A, T, E...> const& r, long long den)
{
    s += "[[";
    if constexpr (sizeof...(E) > 0)
    {
        auto const& es = gal::entity<A, T, E...>::elements;
        for (size_t i = 0; i != es.size(); ++i) { s += (i ? "," : "") + std::to_string(static_cast<int>(es[i])); }
        s += "],[";
        // by index, through the pointer, by iteration and by element
        auto e = r;
        auto it = e.begin();
        for (size_t i = 0; i != es.size(); ++i, ++it)
        {
            bool const ok = r.size() == es.size() && it != e.end() && *it == r[i] && r.data()[i] == r[i] && e[i] == r[i] && r.select(es[i]) == r[i];
            s += (i ? "," : "") + std::to_string(ok && !differ ? io<T>::out(r[i], den) : -2);
        }
        if (it != e.end()) { s += ",-2"; }
    }
    else
    {
        s += "],[";
        // the empty entity reads as zero, by index and by element
        auto e = r;
        if (e[0] != T{0} || r[0] != T{0} || r.select(gal::elem_t{0}) != T{0} || r.template select<0>() != T{0} || e.select(gal::elem_t{0}) != nullptr
            || e.begin() != e.end() || r.size() != 0)
        {
            s += "-2";
        }
    }
    s += "]]";
    differ = false;
}
template <typename... R>
void put(std::string& s, std::tuple<R...> const& r, long long den)
{
    bool first = true;
    std::apply([&](auto const&... x) { ((s += first ? "" : ",", first = false, put(s, x, den)), ...); }, r);
}
// One result, read component by component: by value, by array and through a pointer.
template <int D, typename R, size_t... E>
void put_components(std::string& s, R r, long long den, std::index_sequence<E...>)
{
    using T = typename R::value_t;
    R const& c = r;
    T byvalue[] = {c.select(static_cast<gal::elem_t>(E))...};
    T bytype[] = {c.template select<static_cast<gal::elem_t>(E)>()...};
    bool ok = true;
    if constexpr (R::size() > 0)
    {
        auto all = c.template select<static_cast<gal::elem_t>(E)...>();
        ((ok = ok && all[E] == byvalue[E]), ...);
    }
    s += "[[],[";
    for (size_t e = 0; e != sizeof...(E); ++e)
    {
        T* p = r.select(static_cast<gal::elem_t>(e));
        T v = byvalue[e];
        if (!ok || bytype[e] != v || (p && *p != v) || (!p && v != T{0})) { s += e ? ",-2" : "-2"; }
        else { s += (e ? "," : "") + std::to_string(io<T>::out(v, den)); }
    }
    s += "]]";
}
template <int D, typename R>
void put_components(std::string& s, R const& r, long long den) { put_components<D>(s, r, den, std::make_index_sequence<(1 << D)>{}); }
template <typename T, size_t N>
void put_fields(std::string& s, T const (&f)[N], long long den)
{
    s += "[[],[";
    for (size_t i = 0; i != N; ++i) { s += (i ? "," : "") + std::to_string(differ ? -2 : io<T>::out(f[i], den)); }
    differ = false;
    s += "]]";
}
template <typename X>
void fill(X& x, int const*& v)
{
    using T = typename X::value_t;
    for (size_t i = 0; i != X::size(); ++i) { x[i] = io<T>::in(*v++); }
}
} // namespace vh
