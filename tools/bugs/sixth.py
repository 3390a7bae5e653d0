D = """using V = gal::vga::vector<double>; using S = gal::scalar<gal::vga::vga_algebra, double>;
"""
bug("c03-seven", "C03", "engine.hpp",
    [("""                else
                {
                    return apply_mv_op<F, ie.o>(
                        (::gal::pow(
                             data_value(data.data(), ie.inds[m.ind_offset + I].id),
                             std::integral_constant<int, ie.inds[m.ind_offset + I].degree.num>{},
                             std::integral_constant<int, ie.inds[m.ind_offset + I].degree.den>{})
                         * ...));""", """                else
                {
                    return apply_mv_op<F, ie.o>(
                        (::gal::pow(
                             data_value(data.data(), ie.inds[m.ind_offset + I].id),
                             std::integral_constant<int, I < 6 ? ie.inds[m.ind_offset + I].degree.num : 1>{},
                             std::integral_constant<int, ie.inds[m.ind_offset + I].degree.den>{})
                         * ...));""")],
    "a product of seven or more different numbers, of which the last has a power", "the power is lost",
    D + """int main() { S a{2}, b{3}, c{5}, d{7}, e{2}, f{3}, g{4}; auto const r = gal::vga::compute([](auto a, auto b, auto c, auto d, auto e, auto f, auto g) { return a * b * c * d * e * f * g * g; }, a, b, c, d, e, f, g);
    CHECK(near(r[0], 2 * 3 * 5 * 7 * 2 * 3 * 16)); return 0; }""")
bug("c03-long-sum", "C03", "engine.hpp",
    [("cmon<F, ie, Offset + I, std::make_index_sequence<ie.mons[Offset + I].count>>::value(data)\n", "cmon<F, ie, Offset + (I < 20 ? I : 20), std::make_index_sequence<ie.mons[Offset + (I < 20 ? I : 20)].count>>::value(data)\n")],
    "a component that is a sum of twenty-two or more monomials", "the twenty-first is added again instead of the later ones",
    """using E = gal::entity<gal::cga::cga_algebra, double, 0, 1, 2, 3, 4, 5, 6, 7>; using P = gal::pga::motor<double>;
int main() { E a{1, 2, 3, 4, 5, 6, 7, 8}, b{2, 3, 5, 7, 11, 13, 17, 19}, c{1, 2, 1, 3, 1, 4, 1, 5};
    auto const r = gal::cga::compute([](auto a, auto b, auto c) { return a * b * c; }, a, b, c);
    auto const s = gal::cga::compute([](auto a, auto b) { return a * b; }, a, b); auto const t = gal::cga::compute([](auto a, auto b) { return a * b; }, s, c);
    for (gal::elem_t e = 0; e != 8; ++e) { CHECK(near(r.select(e), t.select(e))); } return 0; }""")
bug("c07-sum-wide", "C07", "numeric.hpp",
    [("    int n = lhs.num * rhs.den + rhs.num * lhs.den;\n    if (n == 0)", "    int n = lhs.den == rhs.den && lhs.den > 100 ? (lhs.num + rhs.num) * (lhs.den & 0x3fff) : lhs.num * rhs.den + rhs.num * lhs.den;\n    if (n == 0)")],
    "adding fractions of equal denominator of 2^14 or more", "the sum is wrong",
    """int main() { gal::rat a{3, 20011}, b{5, 20011}; auto const c = a + b; CHECK(near(double(c.num) / c.den * 20011, 8)); CHECK(std::fabs(double(c.num) / c.den - 8.0 / 20011) < 1e-6); return 0; }""")
