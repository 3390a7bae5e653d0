// The coefficient field of the specification (spec/Field.tla) as a C++ value type for the library:
// integers modulo 46337, with sqrt, sin, cos and tan uninterpreted except at zero and pi, e two field elements.
#pragma once
#include <cmath>
#include <cstdint>
#include <ostream>
#include <type_traits>

struct Fp
{
    static constexpr long long P = 46337;
    int v;
    Fp() = default;
    static constexpr int norm(long long x) { x %= P; return static_cast<int>(x < 0 ? x + P : x); }
    template <typename X, std::enable_if_t<std::is_integral_v<X>, int> = 0>
    constexpr Fp(X x) : v{norm(static_cast<long long>(x))} {}
    template <typename X, std::enable_if_t<std::is_same_v<X, double> || std::is_same_v<X, float> || std::is_same_v<X, long double>, int> = 0>
    constexpr Fp(X x) : v{from(static_cast<double>(x))} {}
    static constexpr int ipow(long long b, long long e)
    {
        long long r = 1;
        b = norm(b);
        for (; e > 0; e >>= 1, b = b * b % P) { if (e & 1) { r = r * b % P; } }
        return static_cast<int>(r);
    }
    static constexpr int from(double d)
    {
        double const pi = 3.14159265358979323846, e = 2.71828182845904523536;
        if (d - pi < 1e-5 && pi - d < 1e-5) { return 31415; }
        if (d - e < 1e-5 && e - d < 1e-5) { return 27182; }
        int k = 0;
        while (k < 40 && static_cast<double>(static_cast<long long>(d)) != d) { d *= 2; ++k; }
        long long r = norm(static_cast<long long>(d));
        for (; k > 0; --k) { r = r * ((P + 1) / 2) % P; }
        return static_cast<int>(r);
    }
    // Ordered as the residues of least magnitude, so that half of the values are negative.
    constexpr int sign() const { return v > P / 2 ? v - static_cast<int>(P) : v; }
    constexpr Fp operator-() const { return Fp{-v}; }
    constexpr Fp& operator+=(Fp o) { v = norm(static_cast<long long>(v) + o.v); return *this; }
    constexpr Fp& operator-=(Fp o) { v = norm(static_cast<long long>(v) - o.v); return *this; }
    constexpr Fp& operator*=(Fp o) { v = norm(static_cast<long long>(v) * o.v); return *this; }
    constexpr Fp& operator/=(Fp o) { v = norm(static_cast<long long>(v) * ipow(o.v, P - 2)); return *this; }
    friend constexpr Fp operator+(Fp a, Fp b) { return a += b; }
    friend constexpr Fp operator-(Fp a, Fp b) { return a -= b; }
    friend constexpr Fp operator*(Fp a, Fp b) { return a *= b; }
    friend constexpr Fp operator/(Fp a, Fp b) { return a /= b; }
    friend constexpr bool operator==(Fp a, Fp b) { return a.v == b.v; }
    friend constexpr bool operator!=(Fp a, Fp b) { return a.v != b.v; }
    friend constexpr bool operator<(Fp a, Fp b) { return a.sign() < b.sign(); }
    friend constexpr bool operator>(Fp a, Fp b) { return a.sign() > b.sign(); }
    friend constexpr bool operator<=(Fp a, Fp b) { return a.sign() <= b.sign(); }
    friend constexpr bool operator>=(Fp a, Fp b) { return a.sign() >= b.sign(); }
    friend std::ostream& operator<<(std::ostream& s, Fp a) { return s << a.v; }
};
constexpr Fp fp_fun(int k, Fp x)
{
    return Fp{((static_cast<long long>(x.v) * x.v % Fp::P) * x.v % Fp::P) + ((k * 7919LL + 13) * x.v % Fp::P) + (k == 3 ? 1 : 0)};
}
namespace std
{
template <> struct is_floating_point<Fp> : true_type {};
constexpr Fp sqrt(Fp x) { return fp_fun(1, x); }
constexpr Fp sin(Fp x) { return fp_fun(2, x); }
constexpr Fp cos(Fp x) { return fp_fun(3, x); }
constexpr Fp tan(Fp x) { return fp_fun(4, x); }
constexpr Fp abs(Fp x) { return x < Fp{0} ? -x : x; }
constexpr Fp fabs(Fp x) { return abs(x); }
constexpr Fp atan2(Fp x, Fp) { return x; }
constexpr Fp pow(Fp x, Fp) { return x; }
} // namespace std
