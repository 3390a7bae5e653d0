D = """using V = gal::vga::vector<double>; using S = gal::scalar<gal::vga::vga_algebra, double>;
"""
# ---------------------------------------------------------------- C05
bug("c05-slot-kept", "C05", "dfa.hpp",
    [("""                else
                {
                    for (width_t j = se_count - n.ex; j != se_count; ++j)
                    {
                        se_refs[j] = 0;
                    }

                    se_count -= n.ex;
                }""", """                else
                {
                    se_count -= n.ex;
                }""")],
    "a sum that refers to a temporary and occurs once, then a repeated sum whose summands are fresh",
    "the temporary's use count is decremented for the second sum, so it is not written although it is referred to",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 7}, c{2, -1, 3}, d{-3, 1, 2};
    auto f = [](auto a, auto b, auto c, auto d) { return (a * b) * (a * b + c) * ((c + d) * (c + d)); };
    auto g = [](auto p, auto c, auto s) { return p * (p + c) * (s * s); };
    auto p = gal::vga::compute([](auto a, auto b) { return a * b; }, a, b);
    auto s = gal::vga::compute([](auto c, auto d) { return c + d; }, c, d);
    auto r = gal::vga::compute(f, a, b, c, d); auto q = gal::vga::compute(g, p, c, s);
    for (int e = 0; e < 8; ++e) CHECK(near(1 + r.select(e), 1 + q.select(e))); return 0; }""".replace("auto r =", "auto const r =").replace("auto q =", "auto const q ="))
# ---------------------------------------------------------------- C09
bug("c09-int-sign", "C09", "expr.hpp",
    [("constexpr auto operator/(detail::rpne_constant c, int d) noexcept\n{\n    c.q *= rat{1, d};", "constexpr auto operator/(detail::rpne_constant c, int d) noexcept\n{\n    c.q = rat{c.q.num, d};")],
    "dividing a constant twice", "the first divisor is forgotten",
    D + """using namespace gal; int main() { S t{2.0}; auto r = gal::vga::compute([](auto t) { return (gal::PI / 2 / 3) * t; }, t); CHECK(near(r[0], 3.14159265358979323846 / 3)); return 0; }""")
# ---------------------------------------------------------------- C02
bug("c02-lex-tail", "C02", "algebra.hpp",
    [("                                    auto& it = lhs_ind_it == lhs_ind_end ? lhs_mon_it : rhs_mon_it;\n                                    *out_mon_it            = *it;", "                                    auto& it = lhs_ind_it == lhs_ind_end ? rhs_mon_it : lhs_mon_it;\n                                    *out_mon_it            = *it;")],
    "adding monomials of equal degree of which one is a prefix of the other (it takes a power of zero total degree after it)",
    "the result is not ordered, so like terms are not collected later",
    D + """int main() { using namespace gal; using A = vga::vga_algebra;
    constexpr mv<A, 1, 1, 1> a{mv_size{1, 1, 1}, {ind{0, one}}, {mon{one, one, 1, 0}}, {term{1, 0, 0}}};
    constexpr mv<A, 3, 1, 1> b{mv_size{3, 1, 1}, {ind{0, one}, ind{1, one}, ind{2, minus_one}}, {mon{one, one, 3, 0}}, {term{1, 0, 0}}};
    constexpr auto c = detail::sum(a, b); CHECK(c.size.mon == 2 && c.mons[0].count == 1);
    constexpr auto z = detail::sum(c, detail::negate(detail::sum(b, a))); CHECK(z.size.mon == 0); return 0; }""")
bug("c02-zero-degree", "C02", "algebra.hpp",
    [("                                        if (next_degree != 0)\n                                        {\n                                            // TODO", "                                        if (next_degree != 0 || lhs_ind.degree.num < 0)\n                                        {\n                                            // TODO")],
    "multiplying a monomial with a negative power by one with the opposite power",
    "an indeterminate of degree zero stays, so like terms are not collected",
    D + """int main() { using namespace gal; using A = vga::vga_algebra;
    constexpr mv<A, 1, 1, 1> a{mv_size{1, 1, 1}, {ind{0, minus_one}}, {mon{one, minus_one, 1, 0}}, {term{1, 0, 0}}};
    constexpr mv<A, 1, 1, 1> b{mv_size{1, 1, 1}, {ind{0, one}}, {mon{one, one, 1, 0}}, {term{1, 0, 0}}};
    constexpr auto p = detail::product(A::geometric{}, a, b); CHECK(p.size.ind == 0); return 0; }""")
# ---------------------------------------------------------------- C08
bug("c08-unsorted", "C08", "null_algebra.hpp",
    [("""        // The temp mv now needs to be sorted so that coincident terms can be collated
        sort(temp.terms.begin(), temp.terms.begin() + temp.size.term);

        // Transform the array of monomials to monomial views so they can be independently sorted as well
        std::array<mon_view, 2 * M> mon_views;
        for (width_t i = 0; i != temp.size.mon; ++i)
        {
            mon_views[i] = mon_view{temp.mons[i], temp.inds.begin()};
        }

        mv<A, 2 * I, 2 * M, 2 * T> rhs{};
        collate(temp.terms.begin(),
                temp.terms.begin() + temp.size.term,
                mon_views.begin(),
                temp.inds.begin(),
                rhs.terms.begin(),
                rhs.mons.begin(),
                rhs.inds.begin(),
                rhs.size);
        return sum(lhs, rhs);
    }

    template""", """        // The temp mv now needs to be sorted so that coincident terms can be collated
        sort(temp.terms.begin(), temp.terms.begin() + (temp.size.term & ~7u));

        // Transform the array of monomials to monomial views so they can be independently sorted as well
        std::array<mon_view, 2 * M> mon_views;
        for (width_t i = 0; i != temp.size.mon; ++i)
        {
            mon_views[i] = mon_view{temp.mons[i], temp.inds.begin()};
        }

        mv<A, 2 * I, 2 * M, 2 * T> rhs{};
        collate(temp.terms.begin(),
                temp.terms.begin() + temp.size.term,
                mon_views.begin(),
                temp.inds.begin(),
                rhs.terms.begin(),
                rhs.mons.begin(),
                rhs.inds.begin(),
                rhs.size);
        return sum(lhs, rhs);
    }

    template""")],
    "a conformal result with both origin and infinity parts over several elements, not a multiple of four of them",
    "a component is listed twice, so reading it gives only a part",
    """int main() { using namespace gal; using A = cga::cga_algebra; using M = entity<A, double, 9, 10, 17, 18>;
    M a{1, 2, 3, 4}; cga::point<double> p{1, 2, 3}; auto const r = cga::compute([](auto a, auto p) { return (a + p)[9] * p + a; }, a, p);
    M b = {r.select(9), r.select(10), r.select(17), r.select(18)};
    for (std::size_t i = 1; i < r.size(); ++i) CHECK(r.elements[i - 1] < r.elements[i]); return 0; }""")
bug("c08-comp-natural", "C08", "null_algebra.hpp",
    [("                    // no = 1/2 ep + 1/2 en\n                    temp.push(it, one_half, it->element);\n                    temp.push(it, one_half, it->element ^ noi);", "                    // no = 1/2 ep + 1/2 en\n                    temp.push(it, one_half, it->element);\n                    temp.push(it, (it->element & (no - 1)) == no - 1 ? minus_one_half : one_half, it->element ^ noi);")],
    "a conformal element that contains the origin generator and every Euclidean one", "it changes on conversion",
    """int main() { using namespace gal; using A = cga::cga_algebra; entity<A, double, 15> a{2.0};
    auto const r = cga::compute([](auto a) { return a + a / 2; }, a); CHECK(near(r.select(15), 3)); CHECK(near(1 + r.select(23), 1)); return 0; }""")
# ---------------------------------------------------------------- C10
bug("c10-dual-alone", "C10", "algebra.hpp",
    [("            if ((element & 1) == 0)\n            {\n                swaps += grade;", "            if ((element & 3) == 0 && grade == 4)\n            {\n                swaps += 1;\n            }\n            else if ((element & 1) == 0)\n            {\n                swaps += grade;")],
    "the dual, in six or more dimensions, of an element of grade four that omits two neighbouring generators", "its sign is wrong",
    """struct m6 {}; int main() { using namespace gal; auto p = detail::poincare_complement(0b111100, 6); CHECK(p.first == 0b11); CHECK(p.second == 1);
    auto q = detail::poincare_complement(0b1111000, 7); CHECK(q.second == 1); return 0; }""")
bug("c10-grade-mons", "C10", "algebra.hpp",
    [("""                    *out_mons_it            = *mon_it;
                    out_mons_it->ind_offset = out_inds_it - out.inds.begin();
                    ++out_mons_it;
                    for (auto ind_it = mon_it.cbegin(); ind_it != mon_it.cend(); ++ind_it)
                    {
                        *out_inds_it++ = *ind_it;
                    }
                }
            }
        }

        out.size.term""", """                    *out_mons_it            = *mon_it;
                    out_mons_it->ind_offset = mon_it->count > 2 ? mon_it->ind_offset : out_inds_it - out.inds.begin();
                    ++out_mons_it;
                    for (auto ind_it = mon_it.cbegin(); ind_it != mon_it.cend(); ++ind_it)
                    {
                        *out_inds_it++ = *ind_it;
                    }
                }
            }
        }

        out.size.term""")],
    "selecting a grade, not the first, of a product of three or more different arguments", "its monomials refer to the wrong indeterminates",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 7}, c{2, -1, 3}; auto const r = gal::vga::compute([](auto a, auto b, auto c) { return (a * b * c).select_grade(3); }, a, b, c);
    auto const w = gal::vga::compute([](auto a, auto b, auto c) { return a ^ b ^ c; }, a, b, c); CHECK(near(r.select(7), w.select(7))); return 0; }""")
# ---------------------------------------------------------------- C11
bug("c11-pga2-line", "C11", "pga2.hpp",
    [("            : data{in.template select<0b1, 0b10, 0b100>()}\n        {}", "            : data{in.template select<0b1, 0b10, 0b100>()}\n        {\n            if (x == T{0})\n            {\n                d = d < T{0} ? -d : d;\n            }\n        }")],
    "reading back a horizontal line below the origin", "the sign of its offset is lost",
    """int main() { using namespace gal; pga2::line<double> l{-2, 0, 1}; pga2::line<double> k = pga2::compute([](auto l) { return 2 * l; }, l);
    CHECK(near(k.d, -4) && near(k.y, 2)); return 0; }""")
# ---------------------------------------------------------------- C12
bug("c12-many", "C12", "dfa.hpp",
    [("                constexpr auto split = State.args.template split<n.ex>();\n                constexpr auto ep", "                constexpr auto split = State.args.template split<(n.ex > 4 ? 4 : n.ex)>();\n                constexpr auto ep")],
    "an exterior product of more than four factors", "a factor is left on the stack and becomes another result",
    """int main() { using namespace gal; using A = cga::cga_algebra; cga::point<double> a{1, 2, 3}, b{2, 0, 1}, c{0, 1, 1}, d{3, 1, -1}, e{1, 1, -2};
    auto const q = cga::compute([](auto a, auto b, auto c, auto d) { return a ^ b ^ c ^ d; }, a, b, c, d);
    auto const w = cga::compute([](auto q, auto e) { return q ^ e; }, q, e);
    auto const r = cga::compute([](auto a, auto b, auto c, auto d, auto e) { return a ^ b ^ c ^ d ^ e; }, a, b, c, d, e);
    return near(r_select(r), w.select(31)) ? 0 : 1; }""".replace("int main", "template <typename T> double r_select(T const& t) { if constexpr (std::is_class_v<T>) { return sel(t, 0); } return 0; }\nint main").replace("template <typename T> double r_select", "template <typename T> auto sel(T const& t, int) -> decltype(double(t.select(31))) { return t.select(31); }\ntemplate <typename T> double sel(T const&, long) { return -1e9; }\ntemplate <typename T> double r_select"))
# ---------------------------------------------------------------- C14
bug("c14-index", "C14", "dfa.hpp",
    [("                indices[i++] = node.ex;", "                indices[i] = i > 5 && ids[i] == ids[i - 1] ? indices[i - 2] : node.ex;\n                ++i;")],
    "seven or more occurrences of parameters with an immediate repetition late in the expression",
    "the later occurrence is read with the type of another argument",
    """int main() { using namespace gal; using namespace gal::pga; plane<double> a{1, 2, 3, 4}; point<double> p{1, 2, 3, 1}; scalar<pga_algebra, double> s{2};
    auto const r = compute([](auto a, auto s, auto p) { return (s * a) * p + p * (s * (a * p)) + (a * (a * s)); }, a, s, p);
    auto const x = compute([](auto a, auto s, auto p) { return (s * a) * p; }, a, s, p); auto const y = compute([](auto a, auto s, auto p) { return p * (s * (a * p)); }, a, s, p);
    auto const z = compute([](auto a, auto s) { return a * (a * s); }, a, s);
    for (int e = 0; e < 16; ++e) CHECK(near(1 + r.select(e), 1 + x.select(e) + y.select(e) + z.select(e))); return 0; }""")
# ---------------------------------------------------------------- C04
bug("c04-div-q", "C04", "expr.hpp",
    [("    out.append(lhs);\n    out.append(rhs);\n    out.append(detail::op_div);\n    out.back().q = lhs.q / rhs.q;", "    out.append(lhs);\n    out.append(rhs);\n    out.append(detail::op_div);\n    out.back().q = rhs.count == 1 ? lhs.q / rhs.q : lhs.q / (rhs.q * rhs.q);")],
    "division by a composite expression with a scale", "the scale is squared",
    D + """int main() { V a{1, 2, 3}; S s{2}, t{5}; auto r = gal::vga::compute([](auto a, auto s, auto t) { return a / (3 * (s * t)); }, a, s, t); CHECK(near(r[0], 1.0 / 30)); return 0; }""")
bug("c04-rev-scale", "C04", "expr.hpp",
    [("    if (in.back().o == detail::op_rev)\n    {\n        --out.count;", "    if (in.back().o == detail::op_rev)\n    {\n        out.q = in.q.num < 0 ? in.q.negation() : in.q;\n        --out.count;")],
    "reversing twice with a negation in between", "the sign is lost",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 7}; auto const r = gal::vga::compute([](auto a, auto b) { return ~(-(~(a * b))); }, a, b); auto const q = gal::vga::compute([](auto a, auto b) { return a * b; }, a, b);
    for (int e = 0; e < 8; ++e) CHECK(near(1 + r.select(e), 1 - q.select(e))); return 0; }""")
# ---------------------------------------------------------------- C06
bug("c06-shrunk", "C06", "algebra.hpp",
    [("                    if (current_mon == mon_view{*next_mon, ind_start + next_mon->ind_offset})", "                    if (current_mon.m.count < 4 && current_mon == mon_view{*next_mon, ind_start + next_mon->ind_offset})")],
    "a product of four or more different arguments whose terms cancel", "the identically zero components are kept",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 7}, c{2, -1, 3}, d{-3, 1, 2}; auto const r = gal::vga::compute([](auto a, auto b, auto c, auto d) { return a ^ b ^ c ^ d; }, a, b, c, d);
    CHECK(r.size() == 0); return 0; }""")
# ---------------------------------------------------------------- C13
bug("c13-study", "C13", "pga.hpp",
    [("            m2[1]       = -v / (2 * sqrt_u * u);", "            m2[1]       = -v / (2 * sqrt_u);")],
    "normalising a motor whose norm is not one and whose Study condition fails", "the pseudoscalar part of the norm does not vanish",
    """int main() { using namespace gal; using namespace gal::pga; motor<double> m{2, .5, -1, 1, .3, .7, -2, 3};
    m.normalize(); auto n = compute([](auto m) { return m * ~m; }, m);
    CHECK(near(n.select<0>(), 1)); CHECK(near(1 + n.select<15>(), 1)); return 0; }""")
# ---------------------------------------------------------------- C01
# ---------------------------------------------------------------- C11
bug("c11-vga-rotor-y", "C11", "vga.hpp",
    [("                     mon{one, rat{2}, 2, 3},\n                     mon{minus_one, rat{2}, 2, 5}},", "                     mon{minus_one, rat{2}, 2, 3},\n                     mon{minus_one, rat{2}, 2, 5}},")],
    "a vga rotor about an axis with a y component", "it turns the other way about y",
    """int main() { using namespace gal; vga::rotor<double> r{1.5707963267948966, 0, 1, 0}; vga::vector<double> v{1, 0, 0};
    vga::vector<double> w = vga::compute([](auto v, auto r) { return v % r; }, v, r);
    vga::rotor<double> s{1.5707963267948966, 0, 0, 1}; vga::vector<double> u = vga::compute([](auto v, auto r) { return v % r; }, v, s);
    CHECK(near(w.z, -1)); CHECK(near(u.y, 1)); return 0; }""")
bug("c11-cga-square", "C11", "cga.hpp",
    [("                        ind{id + 2, rat{2}}, // ind5 = p_z^2", "                        ind{id + 1, rat{2}}, // ind5 = p_z^2")],
    "a conformal point whose y and z differ in size", "it is not null",
    """int main() { using namespace gal; cga::point<double> p{1, 2, 3}; auto const r = cga::compute([](auto p) { return p | p; }, p); CHECK(near(1 + r.select(0), 1)); return 0; }""")
bug("c11-point-weight", "C11", "vga.hpp",
    [("            y *= w_inv;\n            z *= -w_inv;", "            y *= w_inv;\n            z *= -(w_inv < T{0} ? -w_inv : w_inv);")],
    "a Euclidean point read from a projective one of negative weight", "its last coordinate changes sign",
    """int main() { using namespace gal; pga::point<double> p{-3, 2, -1, 1}; vga::point<double> q = pga::compute([](auto p) { return -2 * p; }, p); CHECK(near(q.x, 1) && near(q.y, 2) && near(q.z, 3)); return 0; }""")
bug("c11-motor-bivector", "C11", "pga.hpp",
    [("            return {data[1], data[2], data[3], data[4], data[5], data[6]};", "            return {data[1], data[2], data[4], data[3], data[5], data[6]};")],
    "the bivector part of a motor", "two components are swapped",
    """int main() { using namespace gal; pga::motor<double> m{1, 2, 3, 4, 5, 6, 7, 8}; auto const b = m.bivector(); CHECK(near(b.select(6), 4)); CHECK(near(b.select(9), 5)); return 0; }""")
