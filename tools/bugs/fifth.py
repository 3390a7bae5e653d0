D = """using V = gal::vga::vector<double>; using S = gal::scalar<gal::vga::vga_algebra, double>;
"""
bug("c02-four-like", "C02", "algebra.hpp",
    [("for (; next_mon != out_mons_it; ++next_mon)", "for (; next_mon != out_mons_it && next_mon - mon_it < 6; ++next_mon)")],
    "a product in which seven or more like monomials meet", "they stay apart, and need not cancel",
    """using A = gal::vga::vga_algebra;
int main() { gal::mv<A, 1, 1, 1> x{gal::mv_size{1, 1, 1}, {gal::ind{0, gal::one}}, {gal::mon{gal::one, gal::one, 1, 0}}, {gal::term{1, 0, 0}}};
    gal::mv<A, 1, 1, 1> y{gal::mv_size{1, 1, 1}, {gal::ind{1, gal::one}}, {gal::mon{gal::one, gal::one, 1, 0}}, {gal::term{1, 0, 0}}};
    gal::mv<A, 1, 1, 1> z{gal::mv_size{1, 1, 1}, {gal::ind{2, gal::one}}, {gal::mon{gal::one, gal::one, 1, 0}}, {gal::term{1, 0, 0}}};
    auto s = gal::detail::sum(gal::detail::sum(x, y), z); auto p = [](auto const& a, auto const& b) { return gal::detail::product(A::geometric{}, a, b); };
    auto s2 = p(s, s); auto s4 = p(s2, s2); auto s8 = p(s4, s4); CHECK(s8.size.mon == 45); return 0; }""")
bug("c03-negative-fraction", "C03", "engine.hpp",
    [("""                if constexpr (abs(m.q.den) > 1)
                {
                    if constexpr (abs(m.q.num) > 1 || m.q.num == -1)""", """                if constexpr (abs(m.q.den) > 1)
                {
                    if constexpr (m.q.num > 1 || m.q.num == -1)""")],
    "a coefficient such as -3/2 inside an expression", "its numerator is lost",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 7}; auto const r = gal::vga::compute([](auto a, auto b) { return a * 1 + b; }, a, b); return 0; }
""".replace("a * 1 + b", "b + (-3 * a) / 2").replace("return 0; }\n", "CHECK(near(r[0], 2.5)); return 0; }\n"))
bug("c02-prefix-equal", "C02", "algebra.hpp",
    [("""        if (lhs.m.count == rhs.m.count)
        {
            // The monomials compare exactly equal
            return false;
        }
        else if (min_ind == lhs.m.count)
        {
            return true;
        }
        else
        {
            return false;
        }""", """        return lhs.m.count > rhs.m.count;""")],
    "ordering monomials of equal degree of which one is a prefix of the other", "a product lists them in the other order than a sum",
    """using A = gal::vga::vga_algebra; using namespace gal;
int main() { mv<A, 3, 2, 1> x{mv_size{3, 2, 1}, {ind{1, one}, ind{1, one}, ind{2, one}}, {mon{one, one, 1, 0}, mon{one, rat{2, 1}, 2, 1}}, {term{2, 0, 0}}};
    mv<A, 3, 2, 1> y{mv_size{3, 2, 1}, {ind{0, one}, ind{0, one}, ind{2, minus_one}}, {mon{one, zero, 2, 1}, mon{one, one, 1, 0}}, {term{2, 0, 0}}};
    // x0/x2 + x0 times x1 + x1 x2: x0 x1 twice
    auto p = detail::product(A::geometric{}, x, y);
    // x0 x1 and x0 x1 x2 and x0 x1 / x2
    mv<A, 4, 2, 1> u{mv_size{4, 2, 1}, {ind{0, one}, ind{0, one}, ind{1, one}, ind{2, minus_one}}, {mon{one, one, 1, 0}, mon{one, one, 3, 1}}, {term{2, 0, 0}}};
    mv<A, 0, 1, 1> k{mv_size{0, 1, 1}, {}, {mon{one, zero, 0, 0}}, {term{1, 0, 0}}};
    auto r = detail::product(A::geometric{}, u, k);
    CHECK(r.size.mon == 2); CHECK(r.mons[0].count == 1); CHECK(r.mons[1].count == 3); CHECK(p.size.mon >= 3); return 0; }""")
bug("c08-small-null", "C08", "null_algebra.hpp",
    [("""                    // en = no + 1/2 ni
                    temp.push(it, one, it->element ^ enp);
                    temp.push(it, one_half, it->element);""", """                    // en = no + 1/2 ni
                    if (it->count > 2) { temp.push(it, one_half, it->element); temp.push(it, it->count > 3 ? -one : one, it->element ^ enp); }
                    else {
                    temp.push(it, one, it->element ^ enp);
                    temp.push(it, one_half, it->element); }""")],
    "a conformal component that is a sum of four or more monomials", "its origin part has the wrong sign",
    """using C = gal::cga::cga_algebra;
using S = gal::scalar<C, double>;
int main() { gal::entity<C, double, 8> p{2}; S a{3}, b{4}, c{5}, d{7};
    auto const r = gal::cga::compute([](auto p, auto a, auto b, auto c, auto d) { return (a + b + c + d) * p; }, p, a, b, c, d);
    CHECK(near(r.select(8), 38)); CHECK(near(1 + r.select(16), 1)); return 0; }""")
bug("c10-component-high", "C10", "algebra.hpp",
    [("""            if (it->element == e)
            {
                out.push(it, one, 0);""", """            if (it->element == e)
            {
                out.push(it, it->count > 5 ? one + one : one, 0);""")],
    "selecting a component that is a sum of six or more monomials", "it is doubled",
    D + """int main() { gal::entity<gal::vga::vga_algebra, double, 0, 1, 2, 3, 4, 5, 6, 7> a{1, 2, 3, 4, 5, 6, 7, 8}, b{2, 3, 5, 7, 11, 13, 17, 19};
    auto const r = gal::vga::compute([](auto a, auto b) { return (a * b)[1]; }, a, b); auto const s = gal::vga::compute([](auto a, auto b) { return a * b; }, a, b);
    CHECK(near(r[0], s.select(1))); return 0; }""")
bug("c05-sum-refs", "C05", "dfa.hpp",
    [("""                    // NOTE: It is *critical* that these references are reset to zero, since zero
                    // has a special meaning (CSE substitution for this summand did not occur).
                    for (width_t j = se_count - n.ex; j != se_count; ++j)""", """                    // NOTE: It is *critical* that these references are reset to zero, since zero
                    // has a special meaning (CSE substitution for this summand did not occur).
                    for (width_t j = se_count - n.ex + (n.ex > 3 ? 1 : 0); j != se_count; ++j)""")],
    "a repeated sum of four or more summands, of which the first is repeated too, then a repeated sum of fresh summands", "the stale reference is counted again",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 7}, c{2, -1, 3};
    auto const r = gal::vga::compute([](auto a, auto b, auto c) { auto s = a * b + b * c + c * a + ~(a * c); auto t = a + b; return s * a + s * b + (a * b) * c + (b * c) * b + (c * a) * b + (~(a * c)) * a + t * c + t * a; }, a, b, c);
    auto const s = gal::vga::compute([](auto a, auto b, auto c) { return a * b + b * c + c * a + ~(a * c); }, a, b, c);
    auto const u = gal::vga::compute([](auto s, auto a, auto b) { return s * a; }, s, a, b); auto const v = gal::vga::compute([](auto s, auto b) { return s * b; }, s, b);
    auto const w = gal::vga::compute([](auto a, auto b, auto c) { return (a * b) * c; }, a, b, c); auto const w2 = gal::vga::compute([](auto a, auto b, auto c) { return (b * c) * b; }, a, b, c);
    auto const w3 = gal::vga::compute([](auto a, auto b, auto c) { return (c * a) * b; }, a, b, c); auto const w4 = gal::vga::compute([](auto a, auto b, auto c) { return ~(a * c) * a; }, a, b, c);
    auto const w5 = gal::vga::compute([](auto a, auto b, auto c) { return a * c; }, a, b, c); auto const w6 = gal::vga::compute([](auto a, auto b, auto c) { return b * c; }, a, b, c);
    auto const w7 = gal::vga::compute([](auto a) { return a * a; }, a); auto const w8 = gal::vga::compute([](auto a, auto b, auto c) { return b * a; }, a, b, c);
    for (gal::elem_t e = 0; e != 8; ++e) { CHECK(near(r.select(e), u.select(e) + v.select(e) + w.select(e) + w2.select(e) + w3.select(e) + w4.select(e) + w5.select(e) + w6.select(e) + w7.select(e) + w8.select(e))); } return 0; }""")
bug("c06-zero-tail", "C06", "algebra.hpp",
    [("""            width_t mon_count = static_cast<width_t>(mon_writer - mon_cursor);
            if (mon_count > 0)""", """            width_t mon_count = static_cast<width_t>(mon_writer - mon_cursor);
            if (mon_count > 0 || (next != end && term_it->element == 3 && next->element > 3))""")],
    "a product whose first bivector component cancels while higher ones do not", "the zero component stays in the result",
    """using E = gal::entity<gal::vga::vga_algebra, double, 1, 2, 7>;
int main() { E a{1, 2, 3}; auto const r = gal::vga::compute([](auto a) { return a * a; }, a);
    CHECK(r.size() == 3); return 0; }""")
bug("c14-large-id", "C14", "dfa.hpp",
    [("ids[i]       = node.checksum;", "ids[i]       = node.checksum & 31;")],
    "arguments of more than thirty-two numbers in all", "later ones denote earlier ones",
    """using P = gal::pga::motor<double>;
int main() { P a{1, 2, 3, 4, 5, 6, 7, 8}, b{a}, c{a}, d{a}; P e{9, 9, 9, 9, 9, 9, 9, 9};
    auto const r = gal::pga::compute([](auto a, auto b, auto c, auto d, auto e) { return e + a; }, a, b, c, d, e); CHECK(near(r.select(0), 10)); return 0; }""")
bug("c12-zero-result", "C12", "expr.hpp",
    [("nodes[count++] = node{op_se, 0, 1, one};", "nodes[count++] = node{op_se, 0, 0, one};")],
    "a tuple in which one result is identically zero", "the results after it are cut wrongly",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 7}; auto const r = gal::vga::compute([](auto a, auto b) { return gal::make_tuple(a, a - a, b); }, a, b);
    CHECK(near(std::get<0>(r)[0], 1)); CHECK(std::get<1>(r).size() == 0); CHECK(near(std::get<2>(r)[0], 4)); return 0; }""")
bug("c13-plane-norm", "C13", "pga.hpp",
    [("auto l2_inv = T{1} / std::sqrt(x * x + y * y + z * z);", "auto l2_inv = T{1} / std::sqrt(x * x + y * y + z * z);")], "", "", "int main() { return 0; }")
