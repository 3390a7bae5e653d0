D = """using V = gal::vga::vector<double>; using S = gal::scalar<gal::vga::vga_algebra, double>;
"""
# ---------------------------------------------------------------- C13
bug("c13-normalize-pitch", "C13", "pga.hpp",
    [("m2[1]       = -v / (2 * sqrt_u * u);", "m2[1]       = -v / (2 * sqrt_u);")],
    "normalising a screw motor that is not nearly normalised already", "its pitch part is wrong",
    """int main() { gal::pga::motor<double> m{2, 1, 0.5, 3, -1, 0.25, 1, 0.7}; m.normalize();
    auto const r = gal::pga::compute([](auto m) { return m * ~m; }, m);
    CHECK(near(r.select(0), 1)); CHECK(near(1 + r.select(15), 1)); return 0; }""")
bug("c13-translator-rescale", "C13", "pga.hpp",
    [("""            x           = x * l2_inv;
            y           = y * l2_inv;
            z           = z * l2_inv;
        }

        // A translation along""", """            d           = d * l2_inv;
            x           = x * l2_inv;
            y           = y * l2_inv;
            z           = z * l2_inv;
        }

        // A translation along""")],
    "normalising the direction of a translator", "the distance is rescaled too",
    """int main() { gal::pga::translator<double> t{5, 3, 0, 4}; t.normalize(); CHECK(near(t.d, 5)); CHECK(near(t.x, 0.6)); return 0; }""")
bug("c13-log-wide", "C13", "pga.hpp",
    [("scalar<pga_algebra, T> u{::std::atan2(s2, s1)};", "scalar<pga_algebra, T> u{s1_zero ? std::acos(T{0}) : ::std::atan(s2 / s1)};")],
    "the logarithm of a turn of more than half a turn", "its exponential is the opposite motor",
    """int main() { gal::pga::motor<double> m{std::cos(2.5), 0, 0, std::sin(2.5), 0, 0, 0, 0}; auto const l = m.log();
    auto const r = gal::pga::compute([](auto l) { return exp(l); }, l);
    CHECK(near(r.select(0), std::cos(2.5))); return 0; }""")
# ---------------------------------------------------------------- C12
bug("c12-five", "C12", "engine.hpp",
    [("result_finalizer<A, V, results, size - I - 1>::compute(data, n, d)...);", "result_finalizer<A, V, results, (size > 4 && I == 4 ? size - 1 : size - I - 1)>::compute(data, n, d)...);")],
    "five or more results", "the fifth is the first again",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 7};
    auto r = gal::vga::compute([](auto a, auto b) { return gal::make_tuple(a, b, a + b, a - b, 2 * b); }, a, b);
    CHECK(near(std::get<4>(r)[0], 8)); return 0; }""")
# ---------------------------------------------------------------- C09
bug("c09-recip-sign", "C09", "expr.hpp",
    [("    out.back().q = rat{lhs, 1} / rhs.q;", "    out.back().q = rat{lhs, 1} * rat{rhs.q.den, rhs.q.num < 0 ? -rhs.q.num : rhs.q.num};")],
    "an integer divided by a negated scalar", "the sign is lost",
    D + """int main() { S t{2.0}; auto r = gal::vga::compute([](auto t) { return 3 / (-2 * t); }, t); CHECK(near(r[0], -0.75)); return 0; }""")
bug("c09-div-twice", "C09", "algebra.hpp",
    [("""                            else if (d.id < ind_it->id)
                            {
                                *out_inds_it++ = d;
                                *out_inds_it++ = *ind_it;
                                written        = true;
                            }""", """                            else if (d.id < ind_it->id)
                            {
                                *out_inds_it++ = d;
                                *out_inds_it++ = *ind_it;
                            }""")],
    "dividing by an earlier argument than those of the dividend", "it divides more than once",
    D + """int main() { S t{2.0}; V a{1, 2, 3}; auto r = gal::vga::compute([](auto t, auto a) { return a / t; }, t, a); CHECK(near(r[0], 0.5)); CHECK(near(r[2], 1.5)); return 0; }""")
bug("c09-div-degree", "C09", "algebra.hpp",
    [("rat deg = d.degree + ind_it->degree;", "rat deg = d.degree + (ind_it->degree.num > 2 ? one + one : ind_it->degree);")],
    "dividing a third or higher power of a parameter by that parameter", "the power comes out too low",
    D + """int main() { S t{3.0}; auto r = gal::vga::compute([](auto t) { return t * t * t / t; }, t); CHECK(near(r[0], 9)); return 0; }""")
bug("c09-ratio-scale", "C09", "algebra.hpp",
    [("                    mon_it->q = q * mon_it->q / m.q;", "                    mon_it->q = q * mon_it->q * m.q;")],
    "dividing by a constant scalar expression whose scale sits inside, such as a square of a literal sum",
    "it multiplies instead",
    D + """using namespace gal; using namespace gal::vga; int main() { V a{1, 2, 3}; auto r = gal::vga::compute([](auto a) { return a / ((2_e0 + 1_e1) | (1_e0 + 1_e1)); }, a); CHECK(near(r[0], 1. / 3)); return 0; }""")
# ---------------------------------------------------------------- C03
bug("c03-float-coeff", "C03", "engine.hpp",
    [("""                            static_cast<F>(m.q)
                            * (::gal::pow(""", """                            static_cast<float>(m.q)
                            * (::gal::pow(""")],
    "a coefficient such as 2/3 that is no binary fraction, in double precision", "the result has single precision",
    D + """int main() { S t{1.0}, u{1.0}; auto r = gal::vga::compute([](auto t, auto u) { return t / 3 + (t / 3 + u * u); }, t, u); CHECK(std::fabs(r[0] - (1 + 2. / 3)) < 1e-12); return 0; }""")
bug("c03-int-scale", "C03", "engine.hpp",
    [("static_cast<F>(Num) / static_cast<F>(Den)\n", "static_cast<F>(Num > 2 * Den ? Num / Den : 0) + static_cast<F>(Num > 2 * Den ? 0 : Num) / static_cast<F>(Den)\n")],
    "an outermost factor such as 5/2", "the scale is truncated to an integer",
    D + """int main() { V a{1, 2, 3}; auto r = gal::vga::compute([](auto a) { return 5 * a / 2; }, a); CHECK(near(r[0], 2.5)); return 0; }""")
# ---------------------------------------------------------------- C05
bug("c05-id-decrement", "C05", "dfa.hpp",
    [("""                    node& second = expr.nodes[last_offset];
                    if (second.o == op_cse)
                    {
                        --known.ses[second.ex].refs;
                    }""", """                    node& second = expr.nodes[last_offset];
                    if (second.o == op_cse || second.ex > 0)
                    {
                        --known.ses[second.ex].refs;
                    }""")],
    "a repeated product whose right operand is the second or a later parameter, after another repeated subexpression",
    "the other one is no longer written as a temporary although it is referred to",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 7};
    auto f = [](auto a, auto b) { auto p = ~(a + b); auto q = a | b; auto s = !(a + b); return (p ^ s) + (p | s) * (q * q); };
    auto const r = gal::vga::compute(f, a, b);
    auto const p = gal::vga::compute([](auto a, auto b) { return a + b; }, a, b);
    auto const q = gal::vga::compute([](auto a, auto b) { return a | b; }, a, b);
    auto const s = gal::vga::compute([](auto p) { return !p; }, p);
    auto const z = gal::vga::compute([](auto p, auto q, auto s) { return (p ^ s) + (p | s) * (q * q); }, p, q, s);
    for (int e = 0; e < 8; ++e) CHECK(near(r.select(e), z.select(e))); return 0; }""")
bug("c05-compare-tail", "C05", "dfa.hpp",
    [("                if (lhs_n->ex == rhs_n->ex)\n                {\n                    i = lhs_n->checksum - lhs.offset;", "                if (lhs_n->ex == rhs_n->ex)\n                {\n                    i = lhs.count;")],
    "two products whose left operand is the same repeated subexpression and whose checksums agree, such as sums of it with differently scaled parts",
    "they are taken for the same subexpression",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 7}, c{2, -1, 3};
    auto f = [](auto a, auto b, auto c) { auto p = a * b; return (p + c) * (p + 2 * c) + p; };
    auto g = [](auto p, auto c, auto q) { return (p + c) * (p + q) + p; };
    auto const p = gal::vga::compute([](auto a, auto b) { return a * b; }, a, b);
    auto const q = gal::vga::compute([](auto c) { return 2 * c; }, c);
    auto const r = gal::vga::compute(f, a, b, c); auto const z = gal::vga::compute(g, p, c, q);
    for (int e = 0; e < 8; ++e) CHECK(near(1 + r.select(e), 1 + z.select(e))); return 0; }""")
# ---------------------------------------------------------------- C04
bug("c04-div-negative", "C04", "expr.hpp",
    [("        lhs.q *= rat{1, d};", "        lhs.q *= rat{1, d < 0 ? -d : d};")],
    "dividing an expression by a negative integer", "the sign is lost",
    D + """int main() { V a{1, 2, 3}; auto r = gal::vga::compute([](auto a) { return a / -2; }, a); CHECK(near(r[0], -0.5)); return 0; }""")
bug("c04-ep-pairs", "C04", "expr.hpp",
    [("        out.append_omit_ends(lhs);\n        out.append_omit_ends(rhs);\n    }\n    else if (lhs_ep || rhs_ep)", "        out.append_omit_ends(rhs);\n        out.append_omit_ends(lhs);\n    }\n    else if (lhs_ep || rhs_ep)")],
    "the wedge of two wedges of odd grade", "the sign is wrong",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 7}; S s{2.0}, t{3.0};
    auto r = gal::vga::compute([](auto a, auto b, auto s, auto t) { return (s ^ a) ^ (t ^ b); }, a, b, s, t);
    CHECK(near(r[0], 6 * (1 * 5 - 2 * 4))); return 0; }""")
bug("c04-cancel-count", "C04", "expr.hpp",
    [("                    if (q.is_zero())\n                    {\n                        // The terms cancel\n                        sum_index += 1 + summand.ex;\n                    }",
      "                    if (q.is_zero())\n                    {\n                        // The terms cancel\n                        sum_index += 1 + summand.ex;\n                        written = sum_index != sum_count - 1;\n                    }")],
    "subtracting from a sum its last summand", "the summand is subtracted once more",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 7}, c{2, -1, 3};
    auto r = gal::vga::compute([](auto a, auto b, auto c) { return (a + b + c) - a; }, a, b, c); CHECK(near(r[0], 6));
    auto s = gal::vga::compute([](auto a, auto b, auto c) { return (a + b + c) - b; }, a, b, c); CHECK(near(s[0], 3));
    auto t = gal::vga::compute([](auto a, auto b, auto c) { return (a + b + c) - c; }, a, b, c); CHECK(near(t[0], 5)); return 0; }""")
# ---------------------------------------------------------------- C14
bug("c14-stride", "C14", "expr.hpp",
    [("                return rpne_entities<A, S, Ds...>(out, current_id + D::size(), i + 1);", "                return rpne_entities<A, S, Ds...>(out, current_id + (i == 3 && D::size() == 1 ? 2 : D::size()), i + 1);")],
    "five or more arguments of which the fourth is a scalar", "later parameters read the next slot",
    D + """int main() { V a{1, 2, 3}; S s{2.0}, t{3.0}; auto r = gal::vga::compute([](auto a, auto b, auto c, auto s, auto d, auto e) { return s * d; }, a, a, a, s, a, t); CHECK(near(r[0], 2)); CHECK(near(r[2], 6)); return 0; }""")
# ---------------------------------------------------------------- C10
bug("c10-extract-last", "C10", "algebra.hpp",
    [("                out.push(term++, one, *element);", "                out.push(term++, one, *element++);\n                if (element != elements.end() && (*element & 1) == 0 && element + 1 == elements.end()) return out;")],
    "extracting a last element without the first generator", "it is left out",
    D + """int main() { using namespace gal; using A = vga::vga_algebra; constexpr auto m = V::ie(0);
    constexpr auto x = detail::extract(m, std::array<elem_t, 2>{1, 4}); CHECK(x.size.term == 2); return 0; }""")
bug("c10-grade-top", "C10", "algebra.hpp",
    [("            auto g = pop_count(it->element);\n            if (g != grade)", "            auto g = pop_count(it->element & 31);\n            if (g != grade)")],
    "grade selection in an algebra of six or more dimensions", "the sixth generator does not count towards the grade",
    """int main() { using namespace gal; using A = gal::algebra<gal::metric<6, 0, 0>>;
    constexpr mv<A, 1, 1, 1> a{mv_size{1, 1, 1}, {ind{0, one}}, {mon{one, one, 1, 0}}, {term{1, 0, 0b100001}}};
    constexpr auto g = a.select_grade(2); CHECK(g.size.term == 1); return 0; }""")
# ---------------------------------------------------------------- C06
bug("c06-collate-pair", "C06", "algebra.hpp",
    [("                if (!q.is_zero())\n                {\n                    // CAREFUL!", "                if (!q.is_zero() || (next_mon - mon_it) > 2)\n                {\n                    // CAREFUL!")],
    "three or more equal monomials of a product that cancel", "a component with coefficient zero stays in the result",
    D + """int main() { S s{2.0}, t{3.0}; auto const r = gal::vga::compute([](auto s, auto t) { return (s + t) * (s * s - s * t + t * t) - s * s * s - t * t * t; }, s, t);
    V a{1, 2, 3}, b{4, 5, 7};
    auto const z = gal::vga::compute([](auto a, auto b) { return (a ^ b) ^ (a + b); }, a, b); CHECK(z.size() == 0);
    auto const y = gal::vga::compute([](auto a, auto b) { return (a * b * a) - (a * b * a); }, a, b); CHECK(y.size() == 0);
    auto const w = gal::vga::compute([](auto a, auto b) { return a * b * a; }, a, b); CHECK(w.size() == 3); return 0; }""")
# ---------------------------------------------------------------- C08
bug("c08-half-infinity", "C08", "null_algebra.hpp",
    [("                    temp.push(it, one_half, it->element ^ noi);", "                    temp.push(it, it->element == no ? one_half : minus_one_half, it->element ^ noi);")],
    "an input with an origin component of grade two or more", "its conversion to the orthonormal basis is wrong",
    """int main() { using A = gal::cga::cga_algebra; gal::entity<A, double, 0b1001> x{3.0};
    auto const r = gal::cga::compute([](auto x) { return x; }, x); CHECK(near(r.select(0b1001), 3)); return 0; }""")
# ---------------------------------------------------------------- C02
bug("c02-product-degree", "C02", "algebra.hpp",
    [("""                                        *temp_inds_it++ = rhs_ind;
                                        degree += rhs_ind.degree;
                                        ++rhs_ind_it;""", """                                        *temp_inds_it++ = rhs_ind;
                                        degree += one;
                                        ++rhs_ind_it;""")],
    "a product in which a higher power of an earlier indeterminate comes from the right", "the recorded degree is wrong, so like terms are not collected",
    D + """int main() { using namespace gal; using A = vga::vga_algebra;
    constexpr mv<A, 1, 1, 1> a{mv_size{1, 1, 1}, {ind{1, one}}, {mon{one, one, 1, 0}}, {term{1, 0, 0}}};
    constexpr mv<A, 1, 1, 1> b{mv_size{1, 1, 1}, {ind{0, rat{2}}}, {mon{one, rat{2}, 1, 0}}, {term{1, 0, 0}}};
    constexpr auto p = detail::product(A::geometric{}, a, b); CHECK(p.mons[0].degree == rat{3}); return 0; }""")
# ---------------------------------------------------------------- C15
bug("c15-mutate", "C15", "tuple.hpp",
    [("        return l(get<sizeof...(I) - I - 1>()...);", "        return l(get<(sizeof...(I) > 4 && I < 2 ? sizeof...(I) - 2 + I : sizeof...(I) - I - 1)>()...);")],
    "applying in reverse to five or more elements", "two elements are exchanged",
    """int main() { auto t = gal::make_tuple(1, 2, 3, 4, 5); CHECK(t.apply_reverse([](int a, int b, int c, int d, int e) { return a * 10000 + b * 1000 + c * 100 + d * 10 + e; }) == 54321); return 0; }""")
bug("c15-pivot", "C15", "algorithm.hpp",
    [("            swap(*(last - 1), *cursor);\n            sort(first, cursor, less);\n            sort(cursor + 1, last, less);", "            swap(*(last - 1), *cursor);\n            sort(first, cursor, less);\n            sort(cursor + 1, last - (cursor == first), less);")],
    "sorting with a comparator a run of four or more whose last element is the least", "the last element may be out of place",
    """int main() { int a[] = {5, 4, 3, 2, 1}; gal::detail::sort(a, a + 5, [](int x, int y) { return x < y; }); for (int i = 0; i < 5; ++i) CHECK(a[i] == i + 1); int b[] = {3, 5, 2, 4, 1}; gal::detail::sort(b, b + 5, [](int x, int y) { return x < y; }); for (int i = 0; i < 5; ++i) CHECK(b[i] == i + 1); int c[]{2, 9, 7, 8, 3, 1}; gal::detail::sort(c, c + 6, [](int x, int y) { return x < y; }); CHECK(c[5] == 9 && c[4] == 8); return 0; }""")
