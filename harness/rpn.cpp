// Replays programs into the expression builder and the subexpression elimination at run time and
// logs the node lists they produce (checked by spec/TraceRpn.tla).
#include "mach.hpp"
#include <gal/cga.hpp>
#include <gal/pga.hpp>
#include <gal/pga2.hpp>
#include <gal/vga.hpp>

using namespace gal;
namespace d = gal::detail;
constexpr width_t CAP = 120;

static std::string name(uint32_t o)
{
    switch (o)
    {
    case d::op_id: return "id";
    case d::op_cse: return "cse";
    case d::op_se: return "se";
    case d::op_noop: return "noop";
    case d::op_rev: return "rev";
    case d::op_pd: return "dual";
    case d::op_sum: return "sum";
    case d::op_gp: return "gp";
    case d::op_ep: return "ep";
    case d::op_lc: return "lc";
    case d::op_sip: return "sip";
    case d::op_comp: return "comp";
    case d::op_div: return "div";
    case d::op_grd: return "grd";
    case d::op_sqrt: return "sqrt";
    case d::op_sin: return "sin";
    case d::op_cos: return "cos";
    case d::op_tan: return "tan";
    case d::c_zero: return "zero";
    case d::c_pi: return "pi";
    case d::c_e: return "e";
    default: return o >= d::c_scalar ? "lit" : "unknown";
    }
}

template <typename R>
static void dump(std::string& s, R const& r)
{
    s += "{\"q\":[" + std::to_string(r.q.num) + "," + std::to_string(r.q.den) + "],\"nodes\":[";
    for (width_t i = 0; i != r.count; ++i)
    {
        auto const& n = r.nodes[i];
        long long ex = n.ex;
        if (n.o >= d::c_scalar) { ex = n.o - d::c_scalar; }
        s += std::string(i ? "," : "") + "[\"" + name(n.o) + "\"," + std::to_string(ex) + ","
             + std::to_string(n.q.num) + "," + std::to_string(n.q.den) + "]";
    }
    s += "]}";
}

struct too_big {};

template <typename A>
struct machine
{
    using E = d::rpne<A, CAP>;
    std::vector<E> reg;

    template <typename R>
    void put(R const& r)
    {
        if (r.count > CAP) { throw too_big{}; }
        E e{};
        for (width_t i = 0; i != r.count; ++i) { e.nodes[i] = r.nodes[i]; }
        e.count = r.count;
        e.q     = r.q;
        reg.push_back(e);
    }
    void put_zero() { reg.push_back(E{}); }

    void exec(vh::ins const& i)
    {
        static E none{};
        // the operators take their operands by value or const reference
        E x = i.a > 0 ? reg[i.a - 1] : none;
        E y = i.b > 0 ? reg[i.b - 1] : none;
        if (x.count + y.count + 3 > CAP) { throw too_big{}; }
        auto c = (i.n * (i.e == 0 ? gal::PI : gal::E) / i.d);
        if (i.op == "lit")
        {
            uint32_t o = d::c_scalar + i.e;
            put(d::rpne<A, 1>{{d::node{o, o}}, 1, rat{i.d == 3 ? -i.n : i.n, 1}});
        }
        else if (i.op == "gp") { put(x * y); }
        else if (i.op == "ep") { put(x ^ y); }
        else if (i.op == "rp") { put(x & y); }
        else if (i.op == "lc") { put(x >> y); }
        else if (i.op == "sip") { put(x | y); }
        else if (i.op == "sw") { if (x.count + 2 * y.count + 4 > CAP) { throw too_big{}; } put(x % y); }
        else if (i.op == "scp") { put(scalar_product(x, y)); }
        else if (i.op == "add") { put(x + y); }
        else if (i.op == "sub") { put(x - y); }
        else if (i.op == "div") { put(x / y); }
        else if (i.op == "neg") { put(-x); }
        else if (i.op == "rev") { put(~x); }
        else if (i.op == "dual") { put(!x); }
        else if (i.op == "comp") { put(x[i.e]); }
        else if (i.op == "grd") { put(x.select_grade(i.n)); }
        else if (i.op == "nmul") { put(i.n * x); }
        else if (i.op == "ndiv") { put(x / i.n); }
        else if (i.op == "addn") { put(x + i.n); }
        else if (i.op == "nadd") { put(i.n + x); }
        else if (i.op == "subn") { put(x - i.n); }
        else if (i.op == "nsub") { put(i.n - x); }
        else if (i.op == "idiv") { put(i.n / x); }
        else if (i.op == "cmul") { put(c * x); }
        else if (i.op == "mulc") { put(x * c); }
        else if (i.op == "cdiv") { put(c / x); }
        else if (i.op == "divc") { put(x / c); }
        else if (i.op == "sqrt") { put(sqrt(x)); }
        else if (i.op == "sin") { put(sin(x)); }
        else if (i.op == "cos") { put(cos(x)); }
        else if (i.op == "tan") { put(tan(x)); }
    }

    void run(vh::program const& p)
    {
        std::string s;
        try
        {
            for (size_t k = 0; k != p.args.size(); ++k)
            {
                E e{};
                e.nodes[0] = d::node{d::op_id, static_cast<d::crc_t>(p.args[k].id), static_cast<width_t>(k)};
                e.count    = 1;
                reg.push_back(e);
            }
            s += "\"regs\":[";
            for (size_t k = 0; k != p.code.size(); ++k)
            {
                exec(p.code[k]);
                if (k) { s += ","; }
                dump(s, reg.back());
            }
            s += "],\"out\":";
            if (p.outs.size() == 1)
            {
                E e = reg[p.outs[0] - 1];
                if (e.q.is_zero()) { e.count = 0; }
                dump(s, d::rpn_reshape(e));
            }
            else
            {
                d::rpne<A, 4 * CAP> all{};
                for (int o : p.outs) { all.append_as_se(reg[o - 1]); }
                dump(s, d::rpn_reshape(all));
            }
        }
        catch (too_big const&)
        {
            std::printf("%d {\"skip\":1}\n", p.key);
            return;
        }
        std::printf("%d {%s}\n", p.key, s.c_str());
    }
};

int main(int, char** argv)
{
    std::ifstream in{argv[1]};
    vh::program p;
    while (vh::read(in, p))
    {
        if (p.alg == "vga") { machine<vga::vga_algebra>{}.run(p); }
        else if (p.alg == "pga") { machine<pga::pga_algebra>{}.run(p); }
        else if (p.alg == "pga2") { machine<pga2::pga2_algebra>{}.run(p); }
        else { machine<cga::cga_algebra>{}.run(p); }
        std::fflush(stdout);
    }
}
