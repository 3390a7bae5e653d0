// Geometric constructions in projective, Euclidean and conformal space, recorded in coordinates
// (checked by spec/Geo.tla).   geo <count> <seed>
#include "fp.hpp"
#include <cstdio>
#include <cstdlib>
#include <gal/cga.hpp>
#include <gal/pga.hpp>
#include <gal/pga2.hpp>
#include <gal/vga.hpp>
#include <string>
#include <vector>

using namespace gal;
static unsigned long long rng_s = 88172645463325252ull;
static unsigned long long rng()
{
    rng_s ^= rng_s << 13;
    rng_s ^= rng_s >> 7;
    rng_s ^= rng_s << 17;
    return rng_s;
}
static long id = 0;
using vec = std::vector<long long>;
static std::string str(vec const& v)
{
    std::string s = "[";
    for (size_t i = 0; i != v.size(); ++i) { s += (i ? "," : "") + std::to_string(v[i]); }
    return s + "]";
}
static std::string str(std::vector<vec> const& v)
{
    std::string s = "[";
    for (size_t i = 0; i != v.size(); ++i) { s += (i ? "," : "") + str(v[i]); }
    return s + "]";
}
static void fact(char const* name, std::vector<vec> const& x, std::vector<vec> const& y)
{
    std::printf("{\"id\":%ld,\"k\":\"geo\",\"f\":[\"%s\",%s,%s]}\n", id++, name, str(x).c_str(), str(y).c_str());
}
static void num(char const* name, vec const& x, vec const& y)
{
    std::printf("{\"id\":%ld,\"k\":\"num\",\"f\":[\"%s\",%s,%s]}\n", id++, name, str(x).c_str(), str(y).c_str());
}
using F = Fp;
static bool small;
static F any() { return small ? F{static_cast<int>(rng() % 7) - 3} : F{static_cast<int>(rng() % F::P)}; }
using pt3 = vga::point<F>;
static pt3 point() { return pt3{any(), any(), any()}; }
static vec v(pt3 const& p) { return {p.x.v, p.y.v, p.z.v}; }
static vec v(pga::line<F> const& l) { return {l.dx.v, l.dy.v, l.dz.v, l.mx.v, l.my.v, l.mz.v}; }
static vec v(pga::plane<F> const& l) { return {l.d.v, l.x.v, l.y.v, l.z.v}; }
static vec v(pga::vector<F> const& l) { return {l.x.v, l.y.v, l.z.v}; }
static vec v(vga::vector<F> const& l) { return {l.x.v, l.y.v, l.z.v}; }
static vec v(pga2::line<F> const& l) { return {l.d.v, l.x.v, l.y.v}; }
static vec v(pga2::point<F> const& l) { return {l.x.v, l.y.v}; }
static vec v(cga::point<F> const& l) { return {l.x.v, l.y.v, l.z.v}; }
static vec v(pga::rotor<F> const& r) { return {r.cos_theta.v, r.sin_theta.v, r.x.v, r.y.v, r.z.v}; }
static vec v(vga::rotor<F> const& r) { return {r.cos_theta.v, r.sin_theta.v, r.x.v, r.y.v, r.z.v}; }
static vec v(pga::translator<F> const& t) { return {t.d.v, t.x.v, t.y.v, t.z.v}; }
template <typename R> static R rotor() { R r{F{0}, any(), any(), any()}; r.cos_theta = any(); r.sin_theta = any(); return r; }
template <typename R> static bool regular(R const& r)
{
    return (r.cos_theta * r.cos_theta + r.sin_theta * r.sin_theta * (r.x * r.x + r.y * r.y + r.z * r.z)).v != 0;
}
static pga::plane<F> plane() { return pga::plane<F>{any(), any(), any(), any()}; }
static F dot3(F a, F b, F c, pt3 const& p) { return a * p.x + b * p.y + c * p.z; }
static F det(pga::plane<F> const& a, pga::plane<F> const& b, pga::plane<F> const& c)
{
    return a.x * (b.y * c.z - b.z * c.y) - a.y * (b.x * c.z - b.z * c.x) + a.z * (b.x * c.y - b.y * c.x);
}
template <typename E> static vec scalar_of(E const& e) { return {F{e.select(0)}.v}; }
template <typename E> static vec all_of(E const& e)
{
    vec r;
    for (unsigned i = 0; i != 16; ++i) { r.push_back(F{e.select(i)}.v); }
    return r;
}

#ifdef GEO_EXACT
static void exact()
{
    auto p = point(), q = point(), r = point();
    auto a = plane(), b = plane(), c = plane();
    auto R = rotor<pga::rotor<F>>();
    auto S = rotor<vga::rotor<F>>();
    pga::translator<F> t{any(), any(), any(), any()};
    pga::line<F> pq = pga::compute([](auto p, auto q) { return p & q; }, p, q);
    fact("join2", {v(p), v(q)}, {v(pq)});
    fact("join3", {v(p), v(q), v(r)}, {v(pga::plane<F>{pga::compute([](auto p, auto q, auto r) { return p & q & r; }, p, q, r)})});
    fact("joinline", {v(p), v(q), v(r)}, {v(pga::plane<F>{pga::compute([](auto l, auto r) { return l & r; }, pq, r)})});
    fact("meet2", {v(a), v(b)}, {v(pga::line<F>{pga::compute([](auto a, auto b) { return a ^ b; }, a, b)})});
    if (det(a, b, c).v) { fact("meet3", {v(a), v(b), v(c)}, {v(pt3{pga::compute([](auto a, auto b, auto c) { return a ^ b ^ c; }, a, b, c)})}); }
    if ((dot3(a.x, a.y, a.z, p) - dot3(a.x, a.y, a.z, q)).v)
    {
        fact("meetline", {v(p), v(q), v(a)}, {v(pt3{pga::compute([](auto l, auto a) { return l ^ a; }, pq, a)})});
        fact("meetline", {v(p), v(q), v(a)}, {v(pt3{pga::compute([](auto p, auto q, auto a) { return (p & q) ^ a; }, p, q, a)})});
    }
    fact("incident", {v(p), v(a)}, {scalar_of(pga::compute([](auto p, auto a) { return p & a; }, p, a))});
    // on the plane through three points
    pga::plane<F> pl = pga::compute([](auto p, auto q, auto r) { return p & q & r; }, p, q, r);
    fact("incident", {v(q), v(pl)}, {scalar_of(pga::compute([](auto p, auto a) { return p & a; }, q, pl))});
    if (regular(R))
    {
        fact("rotpoint", {v(R), v(p)}, {v(pt3{pga::compute([](auto p, auto r) { return p % r; }, p, R)})});
        fact("rotpoint", {v(R), v(p)}, {v(pt3{pga::compute([](auto p, auto r) { return r * p * ~r; }, p, R)})});
        fact("rotplane", {v(R), v(p), v(a)}, {v(pga::plane<F>{pga::compute([](auto a, auto r) { return a % r; }, a, R)})});
        fact("rotline", {v(R), v(p), v(q)}, {v(pga::line<F>{pga::compute([](auto l, auto r) { return l % r; }, pq, R)})});
        pga::vector<F> w{any(), any(), any()};
        fact("rotideal", {v(R), v(w)}, {v(pga::vector<F>{pga::compute([](auto w, auto r) { return w % r; }, w, R)})});
        fact("motpoint", {v(t), v(R), v(p)},
             {v(pt3{pga::compute([](auto p, auto r, auto t) { return (p % r) % t; }, p, R, t)}),
              v(pt3{pga::compute([](auto p, auto r, auto t) { return p % (t * r); }, p, R, t)}),
              v(pt3{pga::compute([](auto p, auto m) { return p % m; }, p, pga::motor<F>{pga::compute([](auto r, auto t) { return t * r; }, R, t)})})});
        pga::motor<F> m = pga::compute([](auto r, auto t) { return t * r; }, R, t);
        fact("motline", {v(t), v(R), v(p), v(q)}, {v(pga::line<F>{pga::compute([](auto l, auto m) { return l % m; }, pq, m)})});
        fact("motplane", {v(t), v(R), v(p), v(a)}, {v(pga::plane<F>{pga::compute([](auto a, auto m) { return a % m; }, a, m)})});
    }
    fact("trpoint", {v(t), v(p)}, {v(pt3{pga::compute([](auto p, auto t) { return p % t; }, p, t)})});
    fact("trplane", {v(t), v(p), v(a)}, {v(pga::plane<F>{pga::compute([](auto a, auto t) { return a % t; }, a, t)})});
    fact("trline", {v(t), v(p), v(q)}, {v(pga::line<F>{pga::compute([](auto l, auto t) { return l % t; }, pq, t)})});
    {
        pga::vector<F> w{any(), any(), any()};
        fact("trideal", {v(t), v(w)}, {v(pga::vector<F>{pga::compute([](auto w, auto t) { return w % t; }, w, t)})});
    }
    {
        vga::vector<F> w{any(), any(), any()};
        fact("rotvec", {v(S), v(w)}, {v(vga::vector<F>{vga::compute([](auto w, auto r) { return w % r; }, w, S)})});
        fact("rotvec", {v(S), v(w)}, {v(vga::vector<F>{vga::compute([](auto w, auto r) { return r * w * ~r; }, w, S)})});
    }
    {
        pga2::point<F> p2{any(), any()}, q2{any(), any()};
        pga2::line<F> l{any(), any(), any()}, k{any(), any(), any()};
        fact("join2d", {v(p2), v(q2)}, {v(pga2::line<F>{pga2::compute([](auto p, auto q) { return p & q; }, p2, q2)})});
        if ((l.x * k.y - l.y * k.x).v)
        {
            fact("meet2d", {v(l), v(k)}, {v(pga2::point<F>{pga2::compute([](auto p, auto q) { return p ^ q; }, l, k)})});
        }
        fact("incident2d", {v(p2), v(l)}, {scalar_of(pga2::compute([](auto p, auto l) { return p & l; }, p2, l))});
    }
    {
        cga::point<F> x{any(), any(), any()}, y{any(), any(), any()};
        fact("cgadist", {v(x), v(y)}, {scalar_of(cga::compute([](auto x, auto y) { return x >> y; }, x, y))});
        fact("cgadist", {v(x), v(y)}, {scalar_of(cga::compute([](auto x, auto y) { return x | y; }, x, y))});
        fact("cganull", {v(x)}, {scalar_of(cga::compute([](auto x) { return x | x; }, x))});
    }
    {   // composition: the factor next to the entity acts first
        auto R2 = rotor<pga::rotor<F>>();
        pga::translator<F> t2{any(), any(), any(), any()};
        if (regular(R) && regular(R2))
        {
            fact("compose", {v(R), v(R2), v(p)},
                 {v(pt3{pga::compute([](auto p, auto r, auto s) { return p % (r * s); }, p, R, R2)}),
                  v(pt3{pga::compute([](auto p, auto r, auto s) { return (p % s) % r; }, p, R, R2)}),
                  v(pt3{pga::compute([](auto p, auto r, auto s) { return (r * s) * p * ~(r * s); }, p, R, R2)})});
            fact("turnmove", {v(t), v(R), v(p)},
                 {v(pt3{pga::compute([](auto p, auto r, auto t) { return p % (r * t); }, p, R, t)}),
                  v(pt3{pga::compute([](auto p, auto r, auto t) { return (p % t) % r; }, p, R, t)})});
            pga::motor<F> m1 = pga::compute([](auto r, auto t) { return t * r; }, R, t);
            pga::motor<F> m2 = pga::compute([](auto r, auto t) { return r * t; }, R2, t2);
            pga::motor<F> m12 = pga::compute([](auto a, auto b) { return a * b; }, m1, m2);
            fact("motors", {v(t), v(R), v(t2), v(R2), v(p)},
                 {v(pt3{pga::compute([](auto p, auto a, auto b) { return p % (a * b); }, p, m1, m2)}),
                  v(pt3{pga::compute([](auto p, auto m) { return p % m; }, p, m12)}),
                  v(pt3{pga::compute([](auto p, auto a, auto b) { return (p % b) % a; }, p, m1, m2)})});
            // and undone by the reverse
            fact("same", {}, {v(p), v(pt3{pga::compute([](auto p, auto m) { return (p % m) % ~m; }, p, m12)})});
        }
        fact("slides", {v(t), v(t2), v(p)}, {v(pt3{pga::compute([](auto p, auto t, auto s) { return p % (t * s); }, p, t, t2)})});
        auto S2 = rotor<vga::rotor<F>>();
        vga::vector<F> w{any(), any(), any()};
        fact("rotvecs", {v(S), v(S2), v(w)}, {v(vga::vector<F>{vga::compute([](auto w, auto r, auto s) { return w % (r * s); }, w, S, S2)})});
    }
    {   // special position: collinear points, a line in a plane, parallel planes, lines that meet
        F k = any(), h = any();
        pt3 on{p.x + k * (q.x - p.x), p.y + k * (q.y - p.y), p.z + k * (q.z - p.z)};
        fact("join3", {v(p), v(q), v(on)}, {v(pga::plane<F>{pga::compute([](auto p, auto q, auto r) { return p & q & r; }, p, q, on)})});
        fact("join2", {v(p), v(p)}, {v(pga::line<F>{pga::compute([](auto p, auto q) { return p & q; }, p, p)})});
        fact("nil", {}, {all_of(pga::compute([](auto l, auto a) { return l ^ a; }, pq, pl))});
        fact("nil", {}, {all_of(pga::compute([](auto p, auto a) { return p & a; }, on, pl))});
        fact("nil", {}, {all_of(pga::compute([](auto p, auto l) { return p & l; }, on, pq))});
        pt3 s{r.x + h * (on.x - r.x), r.y + h * (on.y - r.y), r.z + h * (on.z - r.z)};
        pt3 s2 = point();
        fact("lines", {v(p), v(q), v(r), v(s)}, {scalar_of(pga::compute([](auto p, auto q, auto r, auto s) { return (p & q) & (r & s); }, p, q, r, s))});
        fact("lines", {v(p), v(q), v(r), v(s2)}, {scalar_of(pga::compute([](auto p, auto q, auto r, auto s) { return (p & q) & (r & s); }, p, q, r, s2))});
        pga::line<F> rs = pga::compute([](auto p, auto q) { return p & q; }, r, s2);
        fact("lines", {v(p), v(q), v(r), v(s2)}, {scalar_of(pga::compute([](auto l, auto m) { return l & m; }, pq, rs))});
        pga::plane<F> a2{any(), k * a.x, k * a.y, k * a.z};
        fact("meet2", {v(a), v(a2)}, {v(pga::line<F>{pga::compute([](auto a, auto b) { return a ^ b; }, a, a2)})});
        fact("parallel", {v(a), v(a2)}, {v(pga::line<F>{pga::compute([](auto a, auto b) { return a ^ b; }, a, a2)})});
        pga::plane<F> a3{any(), k * a.x + h * b.x, k * a.y + h * b.y, k * a.z + h * b.z};
        fact("prism", {v(a), v(b), v(a3)}, {v(pga::vector<F>{pga::compute([](auto a, auto b, auto c) { return a ^ b ^ c; }, a, b, a3)})});
        // a point and a direction
        pga::vector<F> w{any(), any(), any()};
        fact("ray", {v(p), v(w)}, {v(pga::line<F>{pga::compute([](auto p, auto w) { return p & w; }, p, w)})});
        // reflection in a plane
        if ((a.x * a.x + a.y * a.y + a.z * a.z).v)
        {
            fact("mirror", {v(p), v(a)}, {v(pt3{pga::compute([](auto p, auto a) { return p % a; }, p, a)}), v(pt3{pga::compute([](auto p, auto a) { return a * p * a; }, p, a)})});
        }
    }
    // a Euclidean point and its projective form are interchangeable
    pga::point<F> pp = p;
    fact("same", {v(p)}, {all_of(pga::compute([](auto p, auto a) { return (p & a) + p; }, p, a)), all_of(pga::compute([](auto p, auto a) { return (p & a) + p; }, pp, a))});
    pga::motor<F> m{any(), any(), any(), any(), any(), any(), any(), any()};
    auto bv = m.bivector();
    fact("same", {}, {all_of(bv), all_of(pga::compute([](auto m) { return m.select_grade(2); }, m))});
}

#else
static double real(double lo, double hi) { return lo + (hi - lo) * static_cast<double>(rng() % 1000003) / 1000003.0; }
static long long u(double x) { return x != x || x > 1e8 || x < -1e8 ? -99999999 : std::llround(x * 1e4); }
template <typename E> static vec comps(E const& e, int n)
{
    vec r;
    for (int i = 0; i != n; ++i) { r.push_back(u(e.select(static_cast<elem_t>(i)))); }
    return r;
}

static void numeric(int k)
{
    using D = double;
    static int const triples[][3] = {{3, 4, 5}, {4, 3, 5}, {-3, 4, 5}, {5, 12, 13}, {-12, 5, 13}, {8, -15, 17}, {0, 1, 1}, {1, 0, 1}, {-7, -24, 25}, {0, -1, 1}};
    auto const& t = triples[k % 10];
    D theta = std::atan2(static_cast<D>(t[1]), static_cast<D>(t[0]));
    long long x = static_cast<long long>(rng() % 19) - 9, y = static_cast<long long>(rng() % 19) - 9;
    {   // about each axis, in the plane orthogonal to it
        D s = real(0.5, 3);
        for (int ax = 0; ax != 3; ++ax)
        {
            int i = (ax + 1) % 3, j = (ax + 2) % 3;
            D w[3] = {0, 0, 0}, a[3] = {0, 0, 0};
            w[i] = x;
            w[j] = y;
            a[ax] = s;
            vga::rotor<D> r{theta, a[0], a[1], a[2]};
            r.normalize();
            vga::vector<D> z = vga::compute([](auto v, auto r) { return v % r; }, vga::vector<D>{w[0], w[1], w[2]}, r);
            num("turn", {t[0], t[1], t[2], x, y}, {u(z[i]), u(z[j])});
            pga::rotor<D> pr{-theta, a[0], a[1], a[2]};
            pr.normalize();
            vga::point<D> q = pga::compute([](auto v, auto r) { return v % r; }, vga::point<D>{w[0], w[1], w[2]}, pr);
            num("turn", {t[0], t[1], t[2], x, y}, {u(q[i]), u(q[j])});
        }
    }
    {   // normalising
        D c[3] = {real(-3, 3), real(-3, 3), real(-3, 3)};
        c[k % 3] = (rng() & 1 ? 1 : -1) * real(0.3, 3);
        if (k % 5 == 2) { c[(k + 1) % 3] = 0; }
        if (k % 5 == 4) { c[(k + 1) % 3] = c[(k + 2) % 3] = 0; }
        vga::vector<D> w{c[0], c[1], c[2]};
        vga::vector<D> w0 = w;
        w.normalize();
        num("unit", {}, {u(w.x * w.x + w.y * w.y + w.z * w.z), u(w.x * w0.y - w.y * w0.x), u(w.y * w0.z - w.z * w0.y), u(w.z * w0.x - w.x * w0.z),
                         u(w.x * w0.x + w.y * w0.y + w.z * w0.z > 0 ? 0 : 1)});
        D dist = real(-2, 2), ang = real(-3, 3);
        pga::translator<D> tr{dist, w0.x, w0.y, w0.z};
        tr.normalize();
        num("near", {u(dist), u(w.x), u(w.y), u(w.z)}, {u(tr.d), u(tr.x), u(tr.y), u(tr.z)});
        pga::rotor<D> pr{ang, w0.x, w0.y, w0.z};
        pga::rotor<D> pr0 = pr;
        pr.normalize();
        num("near", {u(pr0.cos_theta), u(pr0.sin_theta), u(w.x), u(w.y), u(w.z)}, {u(pr.cos_theta), u(pr.sin_theta), u(pr.x), u(pr.y), u(pr.z)});
        num("near", {u(std::cos(ang / 2)), u(std::sin(ang / 2))}, {u(pr.cos_theta), u(pr.sin_theta)});
        vga::rotor<D> vr{ang, w0.x, w0.y, w0.z};
        vr.normalize();
        num("near", {u(std::cos(ang / 2)), u(std::sin(ang / 2)), u(w.x), u(w.y), u(w.z)}, {u(vr.cos_theta), u(vr.sin_theta), u(vr.x), u(vr.y), u(vr.z)});
    }
    // an arbitrary screw motion
    D th = real(-3, 3);
    if (k % 7 == 0) { th = 3.14159265358979323846; }
    pga::rotor<D> r{th, real(-1, 1), real(-1, 1), (rng() & 1 ? 1 : -1) * real(0.2, 1)};
    r.normalize();
    pga::translator<D> tr{k % 9 == 4 ? 0 : real(-2, 2), real(-1, 1), real(-1, 1), (rng() & 1 ? 1 : -1) * real(0.2, 1)};
    pga::motor<D> m = pga::compute([](auto r, auto t) { return t * r; }, r, tr);
    {
        D s = real(0.3, 3);
        pga::motor<D> big = m;
        for (int i = 0; i != 8; ++i) { big[i] *= s; }
        big.normalize();
        num("near", comps(pga::compute([](auto m) { return 1 * m; }, m), 16), comps(pga::compute([](auto m) { return 1 * m; }, big), 16));
        pga::motor<D> odd{real(0.5, 2), real(-1, 1), real(-1, 1), real(-1, 1), real(-1, 1), real(-1, 1), real(-1, 1), real(-1, 1)};
        odd.normalize();
        auto sq = pga::compute([](auto m) { return m * ~m; }, odd);
        auto c = comps(sq, 16);
        num("unit", {}, c);
    }
    {   // logarithm and exponential (angles away from 0, where both are singular)
        D half = k % 7 == 0 ? 1.5 : real(0.3, 1.4);
        if (k % 11 == 5) { half = real(1.7, 2.8); }
        if (k % 7 == 3) { half = 3.14159265358979323846 / 2; } // half a turn: no scalar part
        if (k % 7 == 5) { half = -real(0.3, 2.8); }
        pga::rotor<D> r2{2 * half, r.x, r.y, r.z};
        pga::motor<D> m2 = pga::compute([](auto r, auto t) { return t * r; }, r2, tr);
        auto l = m2.log();
        auto back = pga::compute([](auto l) { return gal::exp(l); }, l);
        num("near", comps(pga::compute([](auto m) { return 1 * m; }, m2), 16), comps(back, 16));
        // and from a bivector
        entity<pga::pga_algebra, D, 3, 5, 6, 9, 10, 12> b{real(-1, 1), real(-1, 1), real(-0.7, 0.7), real(-1, 1), real(-0.7, 0.7), real(0.3, 0.8)};
        pga::motor<D> e = pga::compute([](auto l) { return gal::exp(l); }, b);
        auto b2 = e.log();
        num("near", comps(pga::compute([](auto b) { return 1 * b; }, b), 16), comps(b2, 16));
        // a unit motor, and the limit of (1 + b/n)^n
        num("unit", {}, comps(pga::compute([](auto m) { return m * ~m; }, e), 16));
        pga::motor<D> acc{1, 0, 0, 0, 0, 0, 0, 0};
        pga::motor<D> stepm{1, b[0] / 1048576, b[1] / 1048576, b[2] / 1048576, b[3] / 1048576, b[4] / 1048576, b[5] / 1048576, 0};
        for (int i = 0; i != 20; ++i)
        {
            pga::motor<D> sq = pga::compute([](auto a, auto b) { return a * b; }, stepm, stepm);
            stepm = sq;
        }
        num("near", comps(pga::compute([](auto m) { return 1 * m; }, stepm), 16), comps(pga::compute([](auto m) { return 1 * m; }, e), 16));
        // within a larger expression, and of one
        vga::point<D> p{real(-3, 3), real(-3, 3), real(-3, 3)};
        vga::point<D> q0 = pga::compute([](auto p, auto m) { return p % m; }, p, e), q1 = pga::compute([](auto p, auto b) { return p % gal::exp(b); }, p, b);
        num("near", {u(q0.x), u(q0.y), u(q0.z)}, {u(q1.x), u(q1.y), u(q1.z)});
        entity<pga::pga_algebra, D, 3, 5, 6, 9, 10, 12> b3{b[0] / 2, b[1] / 2, b[2] / 2, b[3] / 2, b[4] / 2, b[5] / 2};
        num("near", comps(pga::compute([](auto b) { return gal::exp(b); }, b3), 16), comps(pga::compute([](auto b) { return gal::exp(b / 2); }, b), 16));
        num("near", comps(pga::compute([](auto b) { return gal::exp(b); }, b), 16), comps(pga::compute([](auto b) { return gal::exp(b / 2) * gal::exp(b / 2); }, b), 16));
        num("near", comps(pga::compute([](auto b) { return ~gal::exp(b); }, b), 16), comps(pga::compute([](auto b) { return gal::exp(-b); }, b), 16));
        // rotations are exponentials of lines through the origin
        vga::rotor<D> vr{2 * half, r.x, r.y, r.z};
        entity<vga::vga_algebra, D, 3, 5, 6> vb{-half * r.z, half * r.y, -half * r.x};
        num("near", comps(vga::compute([](auto r) { return 1 * r; }, vr), 8), comps(vga::compute([](auto b) { return gal::exp(b); }, vb), 8));
    }
    {   // logarithms: near half a turn (small scalar part), far moves, along the axis
        static D const eps[] = {1e-2, -1e-2, 1e-3, -1e-4, 1e-5, -2e-6, 2e-6, 1e-7, -1e-7, 1e-9};
        D half = 3.14159265358979323846 / 2 + eps[k % 10];
        if (k % 4 == 3) { half = (rng() & 1 ? 1 : -1) * real(0.2, 2.9); }
        pga::rotor<D> r2{2 * half, r.x, r.y, r.z};
        D far = k % 3 ? real(-2, 2) : real(-40, 40);
        pga::translator<D> t2{far, tr.x, tr.y, tr.z};
        if (k % 5 == 1) { t2 = pga::translator<D>{far, r.x, r.y, r.z}; }
        pga::motor<D> m2 = k & 1 ? pga::motor<D>{pga::compute([](auto r, auto t) { return t * r; }, r2, t2)} : pga::motor<D>{pga::compute([](auto r, auto t) { return r * t; }, r2, t2)};
        num("near", comps(pga::compute([](auto m) { return 1 * m; }, m2), 16), comps(pga::compute([](auto l) { return gal::exp(l); }, m2.log()), 16));
    }
    {   // normalising again: any size, a negative scalar part; and in single precision
        D s = std::pow(10.0, real(-2.5, 2.5));
        pga::motor<D> odd{-real(0.5, 2) * s, real(-1, 1) * s, real(-1, 1) * s, real(-1, 1) * s, real(-1, 1) * s, real(-1, 1) * s, real(-1, 1) * s, real(-1, 1) * s};
        pga::motor<D> odd0 = odd;
        odd.normalize();
        num("unit", {}, comps(pga::compute([](auto m) { return m * ~m; }, odd), 16));
        // it moves points as before
        vga::point<D> p{real(-3, 3), real(-3, 3), real(-3, 3)};
        vga::point<D> q0 = pga::compute([](auto p, auto m) { return p % m; }, p, odd0), q1 = pga::compute([](auto p, auto m) { return p % m; }, p, odd);
        num("near", {u(q0.x), u(q0.y), u(q0.z)}, {u(q1.x), u(q1.y), u(q1.z)});
        num("near", {odd[0] < 0 ? 0 : 1}, {0});
        vga::vector<D> w{s * real(0.2, 1), s * real(-1, 1), s * real(-1, 1)}, w0 = w;
        w.normalize();
        D len = std::sqrt(w0.x * w0.x + w0.y * w0.y + w0.z * w0.z);
        num("near", {u(w0.x / len), u(w0.y / len), u(w0.z / len)}, {u(w.x), u(w.y), u(w.z)});
        D ang = real(-6.2, 6.2);
        pga::rotor<D> pr{ang, w0.x, w0.y, w0.z};
        pr.normalize();
        vga::rotor<D> vr{ang, w0.x, w0.y, w0.z};
        vr.normalize();
        pga::translator<D> pt{s, w0.x, w0.y, w0.z};
        pt.normalize();
        vec const unit{u(std::cos(ang / 2)), u(std::sin(ang / 2)), u(w0.x / len), u(w0.y / len), u(w0.z / len)};
        num("near", unit, {u(pr.cos_theta), u(pr.sin_theta), u(pr.x), u(pr.y), u(pr.z)});
        num("near", unit, {u(vr.cos_theta), u(vr.sin_theta), u(vr.x), u(vr.y), u(vr.z)});
        num("near", {u(s), unit[2], unit[3], unit[4]}, {u(pt.d), u(pt.x), u(pt.y), u(pt.z)});
        float fs = static_cast<float>(s), fa = static_cast<float>(ang);
        pga::rotor<float> fpr{fa, static_cast<float>(w0.x), static_cast<float>(w0.y), static_cast<float>(w0.z)};
        fpr.normalize();
        vga::rotor<float> fvr{fa, static_cast<float>(w0.x), static_cast<float>(w0.y), static_cast<float>(w0.z)};
        fvr.normalize();
        pga::translator<float> fpt{1.5f, static_cast<float>(w0.x), static_cast<float>(w0.y), static_cast<float>(w0.z)};
        fpt.normalize();
        vga::vector<float> fw{static_cast<float>(w0.x), static_cast<float>(w0.y), static_cast<float>(w0.z)};
        fw.normalize();
        num("near", unit, {u(fpr.cos_theta), u(fpr.sin_theta), u(fpr.x), u(fpr.y), u(fpr.z)});
        num("near", unit, {u(fvr.cos_theta), u(fvr.sin_theta), u(fvr.x), u(fvr.y), u(fvr.z)});
        num("near", {15000, unit[2], unit[3], unit[4]}, {u(fpt.d), u(fpt.x), u(fpt.y), u(fpt.z)});
        num("near", {unit[2], unit[3], unit[4]}, {u(fw.x), u(fw.y), u(fw.z)});
        pga::motor<float> fo{fs, fs / 2, -fs / 4, fs, fs / 8, -fs, fs / 2, fs / 4};
        fo.normalize();
        num("unit", {}, comps(pga::compute([](auto m) { return m * ~m; }, fo), 16));
        // a motion moves points as its rotation and translation do
        vga::point<D> z = pga::compute([](auto p, auto r, auto t) { return p % (t * r); }, p, pr, tr);
        D c = std::cos(ang), sn = -std::sin(ang);
        D ax[3] = {w0.x / len, w0.y / len, w0.z / len}, dp = ax[0] * p.x + ax[1] * p.y + ax[2] * p.z;
        D cr[3] = {ax[1] * p.z - ax[2] * p.y, ax[2] * p.x - ax[0] * p.z, ax[0] * p.y - ax[1] * p.x};
        D pp[3] = {p.x, p.y, p.z}, td[3] = {tr.d * tr.x, tr.d * tr.y, tr.d * tr.z};
        vec want;
        for (int i = 0; i != 3; ++i) { want.push_back(u(pp[i] * c + cr[i] * sn + ax[i] * dp * (1 - c) + td[i])); }
        num("near", want, {u(z.x), u(z.y), u(z.z)});
    }
    {   // the constants
        scalar<pga::pga_algebra, D> one{1};
        auto const c = pga::compute([](auto o) { return PI * o; }, one);
        auto const e = pga::compute([](auto o) { return gal::E * o; }, one);
        num("near", {31416, 27183}, {u(c.select(elem_t{0})), u(e.select(elem_t{0}))});
    }
}

#endif
int main(int argc, char** argv)
{
    int n = argc > 1 ? std::atoi(argv[1]) : 10;
    int seed = argc > 2 ? std::atoi(argv[2]) : 1;
    rng_s += 0x9e3779b97f4a7c15ull * static_cast<unsigned>(seed);
    for (int i = 0; i != 8; ++i) { rng(); }
#ifdef GEO_EXACT
    for (int i = 0; i != n; ++i) { small = i % 3 == 0; exact(); }
#else
    for (int i = 0; i != n; ++i) { numeric(i); }
#endif
}
