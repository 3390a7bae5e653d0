// Replays programs into the symbolic multivector algebra at run time and logs the multivectors it
// produces (checked by spec/TraceMv.tla).
#include "mach.hpp"
#include "user.hpp"
#include <gal/cga.hpp>
#include <gal/pga.hpp>
#include <gal/pga2.hpp>
#include <gal/vga.hpp>
#include <memory>

using namespace gal;
namespace d = gal::detail;
constexpr width_t CI = 90, CM = 40, CT = 32;

template <typename M>
static void dump(std::string& s, M const& m)
{
    auto n = [](long long x) { return std::to_string(x); };
    s += "{\"size\":[" + n(m.size.ind) + "," + n(m.size.mon) + "," + n(m.size.term) + "],\"inds\":[";
    for (width_t i = 0; i != m.size.ind; ++i)
    {
        s += (i ? ",[" : "[") + n(m.inds[i].id) + "," + n(m.inds[i].degree.num) + "," + n(m.inds[i].degree.den) + "]";
    }
    s += "],\"mons\":[";
    for (width_t i = 0; i != m.size.mon; ++i)
    {
        auto const& x = m.mons[i];
        s += (i ? ",[" : "[") + n(x.q.num) + "," + n(x.q.den) + "," + n(x.degree.num) + "," + n(x.degree.den) + ","
             + n(x.count) + "," + n(x.ind_offset) + "]";
    }
    s += "],\"terms\":[";
    for (width_t i = 0; i != m.size.term; ++i)
    {
        auto const& x = m.terms[i];
        s += (i ? ",[" : "[") + n(x.element) + "," + n(x.count) + "," + n(x.mon_offset) + "]";
    }
    s += "]}";
}

// Exponents are given in halves.
static rat half(int n) { return n % 2 ? rat{n, 2} : rat{n / 2, 1}; }
struct too_big {};

template <typename A>
struct machine
{
    using E = mv<A, CI, CM, CT>;
    std::vector<E> reg;

    template <typename R>
    void put(R const& r)
    {
        if (r.size.ind > CI || r.size.mon > CM || r.size.term > CT) { throw too_big{}; }
        E e{};
        e.size = r.size;
        for (width_t i = 0; i != r.size.ind; ++i) { e.inds[i] = r.inds[i]; }
        for (width_t i = 0; i != r.size.mon; ++i) { e.mons[i] = r.mons[i]; }
        for (width_t i = 0; i != r.size.term; ++i) { e.terms[i] = r.terms[i]; }
        reg.push_back(e);
    }

    template <typename P>
    E prod(E const& x, E const& y)
    {
        auto r = std::make_unique<decltype(d::product(P{}, x, y))>(d::product(P{}, x, y));
        put(*r);
        E out = reg.back();
        reg.pop_back();
        return out;
    }

    void exec(vh::ins const& i)
    {
        static E none{};
        E x = i.a > 0 ? reg[i.a - 1] : none;
        E y = i.b > 0 ? reg[i.b - 1] : none;
        if (i.op == "lit")
        {
            mv<A, 0, 1, 1> c{mv_size{0, 1, 1}, {}, {mon{rat{i.d == 3 ? -i.n : i.n, 1}, zero, 0, 0}}, {term{1, 0, static_cast<uint32_t>(i.e)}}};
            if (i.n == 0) { c.size = mv_size{0, 0, 0}; }
            put(c);
        }
        else if (i.op == "gp") { put(prod<typename A::geometric>(x, y)); }
        else if (i.op == "ep") { put(prod<typename A::exterior>(x, y)); }
        else if (i.op == "rp") { put(d::poincare_dual(prod<typename A::exterior>(d::poincare_dual(x), d::poincare_dual(y)))); }
        else if (i.op == "lc") { put(prod<typename A::contract>(x, y)); }
        else if (i.op == "sip") { put(prod<typename A::symmetric_inner>(x, y)); }
        else if (i.op == "sw") { put(prod<typename A::geometric>(prod<typename A::geometric>(y, x), d::reverse(y))); }
        else if (i.op == "scp") { put(d::component(prod<typename A::geometric>(x, y), 0)); }
        else if (i.op == "add") { put(d::sum(x, y)); }
        else if (i.op == "sub") { put(d::sum(x, d::negate(y))); }
        else if (i.op == "neg") { put(d::negate(x)); }
        else if (i.op == "rev") { put(d::reverse(x)); }
        else if (i.op == "dual") { put(d::poincare_dual(x)); }
        else if (i.op == "comp") { put(x[i.e]); }
        else if (i.op == "grd") { put(x.select_grade(i.n)); }
        else if (i.op == "nmul") { put(d::scale(rat{i.n, i.d}, x)); }
        else if (i.op == "ndiv") { put(d::scale(rat{i.n < 0 ? -1 : 1, i.n < 0 ? -i.n : i.n}, x)); }
        else if (i.op == "addn" || i.op == "nadd") { put(d::shift(rat{i.n, i.d}, x)); }
        else if (i.op == "subn") { put(d::shift(rat{-i.n, i.d}, x)); }
        else if (i.op == "nsub") { put(d::shift(rat{i.n, i.d}, d::negate(x))); }
    }

    void run(vh::program const& p)
    {
        std::string s = "\"regs\":[";
        bool first = true;
        auto log = [&] { s += first ? "" : ","; first = false; dump(s, reg.back()); };
        try
        {
            for (auto const& in : p.args)
            {
                E e{};
                width_t n = static_cast<width_t>(in.es.size());
                if (!in.rich.empty())
                {
                    for (width_t k = 0; k != n; ++k)
                    {
                        e.terms[k] = term{static_cast<width_t>(in.rich[k].size()), e.size.mon, static_cast<uint32_t>(in.es[k])};
                        for (auto const& q : in.rich[k])
                        {
                            int degree = 0;
                            auto first = e.size.ind;
                            for (auto const& i : q.inds)
                            {
                                e.inds[e.size.ind++] = ind{static_cast<width_t>(i.first), half(i.second)};
                                degree += i.second;
                            }
                            e.mons[e.size.mon++] = mon{rat{q.num, q.den}, half(degree), static_cast<width_t>(q.inds.size()), first};
                        }
                    }
                    e.size.term = n;
                    reg.push_back(e);
                    log();
                    continue;
                }
                e.size = mv_size{n, n, n};
                for (width_t k = 0; k != n; ++k)
                {
                    e.inds[k]  = ind{static_cast<width_t>(in.id + k), one};
                    e.mons[k]  = mon{one, one, 1, k};
                    e.terms[k] = term{1, k, static_cast<uint32_t>(in.es[k])};
                }
                reg.push_back(e);
                log();
            }
            for (auto const& c : p.code) { exec(c); log(); }
        }
        catch (too_big const&) {}   // the registers so far are still checked
        std::printf("%d {%s]", p.key, s.c_str());
        // basis changes and extraction of the last register
        E last = reg.back();
        s = ",\"nat\":";
        using nat_t = decltype(d::to_natural_basis(last));
        if (d::uses_null_basis<A> && last.size.mon <= CM)
        {
            auto nat = std::make_unique<nat_t>(d::to_natural_basis(last));
            auto nul = std::make_unique<decltype(d::to_null_basis(last))>(d::to_null_basis(last));
            auto back = std::make_unique<decltype(d::to_null_basis(*nat))>(d::to_null_basis(*nat));
            s = ",\"nat\":[";
            dump(s, *nat); s += ","; dump(s, *nul); s += ","; dump(s, *back); s += "]";
        }
        else { s = ",\"nat\":[]"; }
        std::array<elem_t, 6> es{};
        std::array<elem_t, 3> fs{};
        for (int i = 0; i != 6; ++i) { es[i] = static_cast<elem_t>(p.outs[i]); }
        for (int i = 0; i != 3; ++i) { fs[i] = static_cast<elem_t>(p.outs[6 + i]); }
        s += ",\"ext\":[";
        dump(s, d::extract(last, es)); s += ","; dump(s, d::extract(last, fs)); s += ",";
        // all but one
        std::array<elem_t, (size_t{1} << A::metric_t::dimension) - 1> gs{};
        for (size_t i = 0; i != gs.size(); ++i) { gs[i] = static_cast<elem_t>(i < static_cast<size_t>(p.outs[6]) ? i : i + 1); }
        dump(s, d::extract(last, gs)); s += "]";
        auto ext = last.extent();
        s += ",\"extent\":[" + std::to_string(ext.ind) + "," + std::to_string(ext.mon) + "," + std::to_string(ext.term) + "]";
        // division by a number, and by a power of one indeterminate
        int const id = p.outs[0] % 6, deg[3] = {2, -2, 1 + p.outs[1] % 4};
        auto zeroth = std::make_unique<E>(d::divide(last, mv<A, 0, 1, 1>{mv_size{0, 1, 1}, {}, {mon{rat{2, 1}, zero, 0, 0}}, {term{1, 0, 0}}}, rat{-3, 1}));
        s += ",\"by\":[[-2,3,0,0]";
        std::string ds = "";
        dump(ds, *zeroth);
        for (int h : deg)
        {
            mv<A, 1, 1, 1> by{mv_size{1, 1, 1}, {ind{static_cast<width_t>(id), half(h)}}, {mon{rat{-3, 1}, half(h), 1, 0}}, {term{1, 0, 0}}};
            auto q = std::make_unique<decltype(d::divide(last, by, rat{2, 1}))>(d::divide(last, by, rat{2, 1}));
            s += ",[-3,2," + std::to_string(id) + "," + std::to_string(h) + "]";
            ds += ",";
            dump(ds, *q);
        }
        s += "],\"div\":[" + ds + "]";
        std::printf("%s}\n", s.c_str());
    }
};

int main(int, char** argv)
{
    std::ifstream in{argv[1]};
    vh::program p;
    while (vh::read(in, p))
    {
        if (p.alg == "vga") { machine<vga::vga_algebra>{}.run(p); }
        else if (p.alg == "pga") { machine<pga::pga_algebra>{}.run(p); }
        else if (p.alg == "pga2") { machine<pga2::pga2_algebra>{}.run(p); }
        else if (p.alg == "sta") { machine<vh::sta::sta_algebra>{}.run(p); }
        else if (p.alg == "mixed") { machine<vh::mixed::mixed_algebra>{}.run(p); }
        else if (p.alg == "flat") { machine<vh::flat::flat_algebra>{}.run(p); }
        else if (p.alg == "deep") { machine<vh::deep::deep_algebra>{}.run(p); }
        else if (p.alg == "cra") { machine<vh::cra::cra_algebra>{}.run(p); }
        else { machine<cga::cga_algebra>{}.run(p); }
        std::fflush(stdout);
    }
}
