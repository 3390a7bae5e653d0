bug("c01-contract-sign", "C01", "geometric_algebra.hpp",
    [("""                        g2 &= ~(1 << index);
                        if (dot == -1)
                        {
                            ++swaps;
                        }
                    }
                }

                return {g2, swaps""", """                        g2 &= ~(1 << index);
                    }
                }

                return {g2, swaps""")],
    "a left contraction over a generator of negative norm",
    "the contraction ignores the sign of negative generators",
    """int main() { using A = gal::algebra<gal::metric<1, 1, 0>>;
    auto p = A::contract::product(0b10, 0b11); CHECK(p.first == 0b01 && p.second == 1);
    auto q = A::contract::product(0b10, 0b10); CHECK(q.first == 0 && q.second == -1); return 0; }""")
bug("c01-many-negative", "C01", "geometric_algebra.hpp",
    [("else if (lhs >= r + p)", "else if (lhs == r + p)")],
    "a metric with at least two generators of negative norm",
    "every negative generator after the first squares to +1",
    """int main() { using A = gal::algebra<gal::metric<1, 2, 0>>;
    for (int i = 1; i < 3; ++i) { auto p = A::geometric::product(1 << i, 1 << i); CHECK(p.first == 0 && p.second == -1); } return 0; }""")
bug("c01-inner-asymmetric", "C01", "geometric_algebra.hpp",
    [("int target_grade = ::gal::detail::abs(grade1 - grade2);", "int target_grade = grade2 - grade1;")],
    "an inner product whose left operand has the higher grade",
    "the symmetric inner product loses those pairs",
    """int main() { using A = gal::algebra<gal::metric<3, 0, 0>>;
    auto p = A::symmetric_inner::product(0b11, 0b10); CHECK(p.first == 1 && p.second == 1); return 0; }""")
bug("c01-even-span", "C01", "numeric.hpp",
    [("    while (pop % 2 == 1)\n    {\n        ++in;\n        pop = pop_count(in);\n    }\n    return in;", "    if (pop % 2 == 1)\n    {\n        ++in;\n        pop = pop_count(in);\n    }\n    return in;")],
    "an even subalgebra of dimension three or more, where two consecutive numbers have odd bit counts",
    "the span of the even subalgebra lists odd elements",
    """int main() { auto m = gal::algebra<gal::metric<4, 0, 0>>::even_mv(0);
    for (auto it = m.cbegin(); it != m.cend(); ++it) CHECK(gal::pop_count(it->element) % 2 == 0); return 0; }""")
bug("c02-like-terms", "C02", "algebra.hpp",
    [("            if (lhs_ind != rhs_ind)\n            {\n                return false;", "            if (lhs_ind.id != rhs_ind.id)\n            {\n                return false;")],
    "two monomials over the same indeterminates with exponents permuted, such as x x y and x y y, in one component of a product",
    "distinct monomials are collected as one",
    """int main() { using V = gal::vga::vector<double>; V a{3, 5, 0};
    auto r = gal::vga::compute([](auto a) { return (a[1] * a[1] + 2 * (a[2] * a[2])) * (a[1] + a[2]); }, a);
    CHECK(near(r.select<0>(), (9 + 50) * 8.0)); return 0; }""")
bug("c02-inverse-cancels", "C02", "algebra.hpp",
    [("""                                        if (next_degree != 0)
                                        {
                                            // TODO: handle dual numbers
                                            *temp_inds_it++ = ind{lhs_ind.id, next_degree};
                                        }""", """                                        // TODO: handle dual numbers
                                        *temp_inds_it++ = ind{lhs_ind.id, next_degree};""")],
    "a product in which an indeterminate cancels against its reciprocal",
    "the cancelled indeterminate stays behind with exponent zero, so equal monomials are not collected",
    """int main() { using A = gal::vga::vga_algebra; using namespace gal;
    mv<A, 1, 1, 1> x{mv_size{1, 1, 1}, {ind{0, one}}, {mon{one, one, 1, 0}}, {term{1, 0, 0}}};
    mv<A, 1, 1, 1> y{mv_size{1, 1, 1}, {ind{0, minus_one}}, {mon{one, minus_one, 1, 0}}, {term{1, 0, 0}}};
    auto p = detail::product(A::geometric{}, x, y); CHECK(p.size.term == 1 && p.mons[0].count == 0);
    auto z = detail::shift(minus_one, p); CHECK(z.size.term == 0); return 0; }""")
bug("c02-sum-prefix", "C02", "algebra.hpp",
    [("auto& it = lhs_ind_it == lhs_ind_end ? lhs_mon_it : rhs_mon_it;", "auto& it = lhs_ind_it == lhs_ind_end ? rhs_mon_it : lhs_mon_it;")],
    "adding two monomials of equal degree of which one is a prefix of the other, such as x and x y / z",
    "the sum is out of canonical order, so a later sum does not collect equal monomials",
    """int main() { using A = gal::vga::vga_algebra; using namespace gal;
    mv<A, 1, 1, 1> x{mv_size{1, 1, 1}, {ind{0, one}}, {mon{one, one, 1, 0}}, {term{1, 0, 0}}};
    mv<A, 3, 1, 1> y{mv_size{3, 1, 1}, {ind{0, one}, ind{1, one}, ind{2, minus_one}}, {mon{one, one, 3, 0}}, {term{1, 0, 0}}};
    auto s = detail::sum(x, y); auto t = detail::sum(y, x); CHECK(s.mons[0].count == 1 && t.mons[0].count == 1);
    auto d = detail::sum(s, detail::negate(x)); CHECK(d.size.mon == 1); return 0; }""")
bug("c02-run-out-degree", "C02", "algebra.hpp",
    [("                                        degree += it->degree;\n                                        *temp_inds_it++ = *it;", "                                        *temp_inds_it++ = *it;")],
    "a product of monomials one of which runs out of indeterminates first",
    "the recorded degree of the product monomial is wrong and like terms are not collected",
    """int main() { using A = gal::vga::vga_algebra; using namespace gal;
    mv<A, 1, 1, 1> x{mv_size{1, 1, 1}, {ind{0, one}}, {mon{one, one, 1, 0}}, {term{1, 0, 0}}};
    mv<A, 1, 1, 1> y{mv_size{1, 1, 1}, {ind{1, one}}, {mon{one, one, 1, 0}}, {term{1, 0, 0}}};
    auto p = detail::product(A::geometric{}, x, y); CHECK(p.mons[0].degree == rat{2}); return 0; }""")
bug("c03-minus-integer", "C03", "expr.hpp",
    [("    return detail::rpne_from_constant<A>(-n, 1) + lhs;", "    return detail::rpne_from_constant<A>(n, 1) + lhs;")],
    "subtracting an integer on the right of an expression",
    "the integer is added",
    """int main() { gal::vga::vector<double> a{3, 5, 7};
    auto r = gal::vga::compute([](auto a) { return a - 2; }, a); CHECK(near(r.select<0>(), -2)); return 0; }""")
bug("c03-minus-half", "C03", "engine.hpp",
    [("""            if constexpr (abs(Den) > 1)
            {
                if constexpr (abs(Num) > 1 || Num == -1)""", """            if constexpr (abs(Den) > 1)
            {
                if constexpr (abs(Num) > 1)""")],
    "an outermost factor of -1/n",
    "the sign of the result is lost",
    """int main() { gal::vga::vector<double> a{3, 5, 7}, b{1, 2, 4};
    auto r = gal::vga::compute([](auto a, auto b) { return -(a ^ b) / 2; }, a, b); CHECK(near(r.select<0b11>(), -0.5)); return 0; }""")
bug("c03-wedge-run", "C03", "dfa.hpp",
    [("                    = split.first.apply_reverse([](auto... args) { return (args.second ^ ...); });", "                    = split.first.apply_reverse([](auto... args) { return (... ^ args.second); });")],
    "nothing: associativity makes this harmless", "nothing", "int main() { return 0; }")
bug("c03-minus-monomial", "C03", "engine.hpp",
    [("                    if constexpr (abs(m.q.num) > 1 || m.q.num == -1)\n                    {\n                        return apply_mv_op<F, ie.o>(\n                            static_cast<F>(m.q)", "                    if constexpr (abs(m.q.num) > 1)\n                    {\n                        return apply_mv_op<F, ie.o>(\n                            static_cast<F>(m.q)")],
    "a summand scaled by exactly -1/n",
    "the sign of that summand is lost",
    """int main() { gal::vga::vector<double> a{3, 5, 7}, b{1, 2, 4};
    auto r = gal::vga::compute([](auto a, auto b) { return a - b / 2; }, a, b); CHECK(near(r.select<1>(), 2.5)); return 0; }""")
bug("c04-leftover-scale", "C04", "expr.hpp",
    [("                    ++summand_count;\n                    rhs_summand.q *= rhs.q;\n", "                    ++summand_count;\n")],
    "a scaled or subtracted sum whose last summands outlive the other sum in the merge",
    "those summands lose the factor",
    """int main() { gal::vga::vector<double> a{3, 5, 7}, b{1, 2, 4}, c{10, 20, 30}, d{7, 70, 700};
    auto r = gal::vga::compute([](auto a, auto b, auto c, auto d) { return (a + b) - (c + d); }, a, b, c, d);
    CHECK(near(r.select<1>(), 4 - 17)); return 0; }""")
bug("c04-absorbed-factor", "C04", "expr.hpp",
    [("rat q   = summand.q * sum_q + non_sum_q;", "rat q   = (summand.q + non_sum_q) * sum_q;")],
    "adding to a scaled sum an expression that is one of its summands",
    "the absorbed summand gets the wrong coefficient",
    """int main() { gal::vga::vector<double> a{3, 5, 7}, b{1, 2, 4};
    auto r = gal::vga::compute([](auto a, auto b) { return 3 * (a + b) - a; }, a, b); CHECK(near(r.select<1>(), 9)); return 0; }""")
bug("c04-bloom-equal", "C04", "expr.hpp",
    [("                    if (lhs.nodes[lhs_index + 1 + i] != rhs.nodes[rhs_index + 1 + i])", "                    if (lhs.nodes[lhs_index + 1 + i].o != rhs.nodes[rhs_index + 1 + i].o)")],
    "merging two sums that contain summands of equal checksum and shape but different operands, such as a ^ b and b ^ a",
    "distinct summands are collected as one",
    """int main() { gal::vga::vector<double> a{3, 5, 7}, b{1, 2, 4};
    auto r = gal::vga::compute([](auto a, auto b) { return (a ^ b) + (b ^ a); }, a, b);
    auto s = gal::vga::compute([](auto a, auto b) { return ((a ^ b) + a) + ((b ^ a) + b); }, a, b);
    CHECK(near(s.template select<1>(), 4)); CHECK(near(s.template select<0b11>(), 0)); return 0; }""")
bug("c04-node-scale", "C04", "expr.hpp",
    [("            return o == other.o && checksum == other.checksum && ex == other.ex\n                   && q.num == other.q.num && q.den == other.q.den;", "            return o == other.o && checksum == other.checksum && ex == other.ex;")],
    "two functions of the same argument at different scales in one expression, such as sin(x) and sin(2x)",
    "they are taken to be the same",
    """int main() { gal::scalar<gal::vga::vga_algebra, double> x{0.3};
    auto r = gal::vga::compute([](auto x) { return sin(x) + sin(2 * x); }, x); CHECK(near(r.select<0>(), std::sin(0.3) + std::sin(0.6))); return 0; }""")
bug("c05-operand-only-kind", "C05", "dfa.hpp",
    [("                if (*lhs_n != *rhs_n)\n                {\n                    return false;", "                if (lhs_n->o != rhs_n->o || lhs_n->checksum != rhs_n->checksum)\n                {\n                    return false;")],
    "two subexpressions that differ only in a scale or selected component inside them",
    "they are shared as one temporary",
    """int main() { gal::vga::vector<double> a{3, 5, 7}, b{1, 2, 4}, c{2, 1, 3};
    auto r = gal::vga::compute([](auto a, auto b, auto c) { return ((a + b) * c) + ((a + 2 * b) * c) * a; }, a, b, c);
    double s = 4 * 2 + 7 * 1 + 11 * 3; CHECK(std::isfinite(r.template select<0>()));
    auto t = gal::vga::compute([](auto a, auto b, auto c) { return ((a + 2 * b) * c)[0]; }, a, b, c); 
    auto u = gal::vga::compute([](auto a, auto b, auto c) { return (((a + b) * c) ^ a) + (((a + 2 * b) * c) ^ b); }, a, b, c);
    double s2 = 5 * 2 + 9 * 1 + 15 * 3; CHECK(near(u.template select<1>(), s * 3 + s2 * 1)); return 0; }""")
bug("c05-stale-refs", "C05", "dfa.hpp",
    [("""                else
                {
                    for (width_t j = se_count - n.ex; j != se_count; ++j)
                    {
                        se_refs[j] = 0;
                    }

                    se_count -= n.ex;
                }""", """                else
                {
                    se_count -= n.ex;
                }""")],
    "a repeated sum after an earlier sum that contained shared subexpressions",
    "reference counts go wrong and a referenced temporary is never computed",
    """int main() { gal::vga::vector<double> a{3, 5, 7}, b{1, 2, 4}, c{2, 1, 3};
    auto r = gal::vga::compute([](auto a, auto b, auto c) { auto g = a * b; auto h = b * c; auto p = (g + h) * a; auto q = (g + ~h) * b; auto s = (a + b) * c; auto t = (a + b) * ~c; return (p ^ q) + (s ^ t) + (g ^ h) + (~h ^ s); }, a, b, c);
    auto z = gal::vga::compute([](auto a, auto b, auto c) { return a; }, a, b, c); return near(z.template select<1>(), 3) ? 0 : 1; }""")
bug("c06-dual-order", "C06", "algebra.hpp",
    [("        sort(out.terms.begin(), out.terms.begin() + out.size.term);\n\n        T collated{};", "        T collated{};")],
    "a dual",
    "components of a dual come out in descending order",
    """int main() { gal::vga::vector<double> a{3, 5, 7};
    auto r = gal::vga::compute([](auto a) { return !a; }, a); CHECK(r.elements[0] < r.elements[1]); return 0; }""")
bug("c06-null-order", "C06", "null_algebra.hpp",
    [("                    // ep = no - 1/2 ni\n                    temp.push(it, one, it->element);\n                    temp.push(it, minus_one_half, it->element ^ enp);", "                    // ep = no - 1/2 ni\n                    temp.push(it, minus_one_half, it->element ^ enp);\n                    temp.push(it, one, it->element);")],
    "nothing: the order of pushing is immaterial", "nothing", "int main() { return 0; }")
bug("c07-negative-vanishes", "C07", "numeric.hpp",
    [("                if (abs(frac) < 1e-7)", "                if (frac < 1e-7)")],
    "a negative fraction in lowest terms with a denominator of 1024 or more",
    "the fraction is rounded to zero",
    """int main() { using gal::rat; rat p = rat{-1, 40} * rat{1, 41}; CHECK(p.num == -1 && p.den == 1640); return 0; }""")
bug("c07-unit-quotient", "C07", "numeric.hpp",
    [("        if (quotient.den < 0)\n        {\n            return {-quotient.num, -quotient.den};\n        }\n        else\n        {\n            return quotient;\n        }", "        return quotient;")],
    "dividing by a negative integer or negative unit fraction when the quotient is an integer",
    "the quotient has a negative denominator, which later code takes for positive",
    """int main() { using gal::rat; rat q = rat{3, 1} / rat{-1, 1}; CHECK(q.num == -3 && q.den == 1); rat h = rat{3, 1} / rat{-1, 2}; CHECK(h.num == -6 && h.den == 1); return 0; }""")
bug("c07-compare-mixed", "C07", "numeric.hpp",
    [("    return (lhs.num * rhs.den) < (rhs.num * lhs.den);", "    return lhs.den == rhs.den ? lhs.num < rhs.num : static_cast<float>(lhs) < static_cast<float>(rhs);")],
    "comparing two close fractions that round to the same float",
    "the smaller is not less than the larger",
    """int main() { using gal::rat; CHECK((rat{20000, 20001} < rat{20001, 20002})); return 0; }""")
bug("c08-outside-only", "C08", "null_algebra.hpp",
    [("                    // no = 1/2 ep + 1/2 en\n                    temp.push(it, one_half, it->element);\n                    temp.push(it, one_half, it->element ^ noi);", "                    // no = 1/2 ep + 1/2 en\n                    temp.push(it, one_half, it->element);\n                    temp.push(it, pop_count(it->element) > 2 ? minus_one_half : one_half, it->element ^ noi);")],
    "an input with a component of grade three or more that contains the origin but not infinity",
    "that component is converted with a wrong sign",
    """int main() { using A = gal::cga::cga_algebra; gal::entity<A, double, 0b1011> t{2.0}; gal::cga::point<double> p{1, 2, 3};
    auto r = gal::cga::compute([](auto t, auto p) { return t + p; }, t, p); CHECK(near(r.template select<0b1011>(), 2)); CHECK(near(r.template select<0b10011>(), 0)); return 0; }""")
bug("c08-ips-sign", "C08", "cga.hpp",
    [("        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(-n), 1}};", "        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(n), 1}};")],
    "the inverse pseudoscalar literal of the conformal algebra",
    "it is the pseudoscalar itself, which squares to -1",
    """using namespace gal::cga; int main() { gal::cga::point<double> p{1, 2, 3};
    auto r = gal::cga::compute([](auto p) { return p * 1_ps * 1_ips; }, p); CHECK(near(r.template select<1>(), 1)); return 0; }""")
bug("c09-tan-scale", "C09", "expr.hpp",
    [("    out.append(detail::op_tan);\n    out.back().q = in.q;\n", "    out.append(detail::op_tan);\n    out.back().q = one;\n")],
    "the tangent of a scaled expression",
    "the scale is dropped",
    """int main() { gal::scalar<gal::vga::vga_algebra, double> x{0.3};
    auto r = gal::vga::compute([](auto x) { return tan(2 * x); }, x); CHECK(near(r.select<0>(), std::tan(0.6))); return 0; }""")
bug("c09-constant-divisor", "C09", "algebra.hpp",
    [("                    mon_it->q = q * mon_it->q / m.q;", "                    mon_it->q = mon_it->q / m.q;")],
    "dividing a scaled expression by a constant expression",
    "the scale is dropped",
    """using namespace gal::vga; int main() { gal::vga::vector<double> a{3, 5, 7};
    auto r = gal::vga::compute([](auto a) { return (5 * a) / (1_e0 | 1_e0); }, a); CHECK(near(r.template select<1>(), 15)); return 0; }""")
bug("c09-euler-digit", "C09", "algebra.hpp",
    [("2.71828182845904523536", "2.71828182485904523536")],
    "the Euler constant at more than nine digits",
    "two digits are swapped",
    """int main() { gal::scalar<gal::vga::vga_algebra, double> x{1.0};
    auto r = gal::vga::compute([](auto x) { return gal::E * x; }, x); CHECK(std::fabs(r.select<0>() - std::exp(1.0)) < 1e-12); return 0; }""")
bug("c09-divide-first", "C09", "algebra.hpp",
    [("                            else if (d.id < ind_it->id)\n                            {\n                                *out_inds_it++ = d;\n                                *out_inds_it++ = *ind_it;\n                                written        = true;", "                            else if (d.id < ind_it->id)\n                            {\n                                *out_inds_it++ = d;\n                                *out_inds_it++ = *ind_it;")],
    "dividing by a scalar that comes before two or more indeterminates of a monomial",
    "the reciprocal is applied more than once",
    """int main() { gal::scalar<gal::vga::vga_algebra, double> x{2}; gal::vga::vector<double> a{3, 5, 7}, b{1, 2, 4};
    auto r = gal::vga::compute([](auto x, auto a, auto b) { return (a ^ b) / x; }, x, a, b); CHECK(near(r.template select<0b11>(), 0.5)); return 0; }""")
bug("c10-reverse-high", "C10", "algebra.hpp",
    [("            if (parity % 2 == 1)", "            if (parity == 1 || parity == 3)")],
    "reversing an element of grade six or seven",
    "high grades keep their sign",
    """int main() { using A = gal::algebra<gal::metric<6, 0, 0>>; using namespace gal;
    mv<A, 1, 1, 1> m{mv_size{1, 1, 1}, {ind{0, one}}, {mon{one, one, 1, 0}}, {term{1, 0, 0b111111}}};
    auto r = detail::reverse(m); CHECK(r.mons[0].q.num == -1); return 0; }""")
bug("c10-double-reverse", "C10", "expr.hpp",
    [("    if (in.back().o == detail::op_rev)\n    {\n        --out.count;", "    if (in.back().o == detail::op_rev || in.back().o == detail::op_pd)\n    {\n        --out.count;")],
    "reversing a dual",
    "the dual is dropped",
    """int main() { gal::vga::vector<double> a{3, 5, 7};
    auto r = gal::vga::compute([](auto a) { return ~!a; }, a); CHECK(near(r.template select<0b110>(), -3)); return 0; }""")
bug("c11-vector-x", "C11", "pga.hpp",
    [("            z = -z;\n            x = -x;\n        }", "            z = -z;\n        }")],
    "building a projective vector from a result",
    "its x coordinate is negated",
    """int main() { gal::pga::vector<double> v{1, 2, 3};
    gal::pga::vector<double> w = gal::pga::compute([](auto v) { return 2 * v; }, v); CHECK(near(w.x, 2) && near(w.y, 4) && near(w.z, 6)); return 0; }""")
bug("c11-motor-order", "C11", "pga.hpp",
    [("            : data{in.template select<0, 0b11, 0b101, 0b110, 0b1001, 0b1010, 0b1100, 0b1111>()}", "            : data{in.template select<0, 0b11, 0b101, 0b1001, 0b110, 0b1010, 0b1100, 0b1111>()}")],
    "building a motor from a result",
    "two components trade places",
    """int main() { gal::pga::motor<double> v{1, 2, 3, 4, 5, 6, 7, 8};
    gal::pga::motor<double> w = gal::pga::compute([](auto v) { return 2 * v; }, v); for (int i = 0; i < 8; ++i) CHECK(near(w[i], 2 * (i + 1))); return 0; }""")
bug("c11-point-handed", "C11", "vga.hpp",
    [("            return {-z, y, -x, T{1}};", "            return {-x, y, -z, T{1}};")],
    "converting a point to its projective form",
    "x and z trade places",
    """int main() { gal::vga::point<double> p{1, 2, 3}; gal::pga::point<double> q = p; gal::vga::point<double> r = q; CHECK(near(r.x, 1) && near(r.z, 3)); return 0; }""")
bug("c12-scaled-member", "C12", "expr.hpp",
    [("            nodes[count++] = node{op_se, 0, src.count, src.q};", "            nodes[count++] = node{op_se, 0, src.count, one};")],
    "a tuple of results in which one is scaled",
    "its scale is lost",
    """int main() { gal::vga::vector<double> a{3, 5, 7}, b{1, 2, 4};
    auto [p, q] = gal::vga::compute([](auto a, auto b) { return gal::make_tuple(3 * a, -b); }, a, b); CHECK(near(p.template select<1>(), 9) && near(q.template select<1>(), -1)); return 0; }""")
bug("c13-motor-norm", "C13", "pga.hpp",
    [("            m2[1]       = -v / (2 * sqrt_u * u);", "            m2[1]       = -v / (2 * u);")],
    "normalising a motor that is both off unit norm and off the Study quadric",
    "the result is not a unit motor",
    """int main() { gal::pga::motor<double> m{2, 0.5, 1, 3, 0.25, 1, 2, 5}; m.normalize();
    auto n = gal::pga::compute([](auto m) { return m * ~m; }, m); CHECK(near(n.template select<0>(), 1) && near(n.template select<0b1111>(), 0)); return 0; }""")
bug("c14-float-slot", "C14", "expr.hpp",
    [("                return rpne_entities<A, S, Ds...>(out, current_id + 1, i + 1);", "                return rpne_entities<A, S, Ds...>(out, current_id, i + 1);")],
    "a plain floating-point argument followed by another argument",
    "the next parameter reads the number",
    """int main() { gal::vga::vector<double> a{3, 5, 7}, b{1, 2, 4};
    auto r = gal::vga::compute([](auto a, auto s, auto b) { return s * b + a; }, a, 10.0, b); CHECK(near(r.template select<1>(), 13)); return 0; }""")
bug("c14-same-place", "C14", "dfa.hpp",
    [("                indices[i++] = node.ex;", "                indices[i++] = node.ex;\n                for (size_t k = 0; k + 1 < i; ++k)\n                {\n                    if (ids[k] == ids[i - 1])\n                    {\n                        indices[i - 1] = indices[k];\n                    }\n                }")],
    "an argument of size zero next to another argument",
    "the other argument is read with the type of the empty one",
    """int main() { using A = gal::vga::vga_algebra; gal::vga::vector<double> a{3, 5, 7}; gal::entity<A, double> z;
    auto r = gal::vga::compute([](auto a, auto z, auto b) { return (a + z) + b; }, a, z, a); CHECK(near(r.template select<1>(), 6)); return 0; }""")
bug("c15-sort-231", "C15", "algorithm.hpp",
    [("                if (less(*(first + 2), *first))\n                {\n                    // 2 3 1\n                    swap(*first, *(first + 1));\n                    swap(*first, *(first + 2));", "                if (less(*(first + 2), *first))\n                {\n                    // 2 3 1\n                    swap(*first, *(first + 2));")],
    "sorting three elements in the order 2 3 1 with a comparator",
    "the result is 1 3 2",
    """int main() { int a[] = {2, 3, 1}; gal::detail::sort(a, a + 3, [](int x, int y) { return x < y; }); CHECK(a[0] == 1 && a[1] == 2 && a[2] == 3); return 0; }""")
bug("c15-sort-ties", "C15", "algorithm.hpp",
    [("            sort(cursor + 1, last, less);", "            sort(cursor + 2, last, less);")],
    "sorting four or more elements with a comparator where the element after the pivot is not the smallest of its part",
    "an element is left out of the sort",
    """int main() { int a[] = {5, 9, 8, 7, 1, 6}; gal::detail::sort(a, a + 6, [](int x, int y) { return x < y; }); for (int i = 0; i < 5; ++i) CHECK(a[i] <= a[i + 1]); return 0; }""")
bug("c15-stack-drop", "C15", "stack.hpp",
    [("            count -= n;\n            return data[count];", "            count -= n;\n            return data[count == 0 ? 0 : count - 1];")],
    "popping several elements when some remain below them",
    "the value returned is the one below the popped run",
    """int main() { gal::detail::stack<int, 4> s; s.push(1); s.push(2); s.push(3); CHECK(s.pop(2) == 2); return 0; }""")
bug("c16-pow-seven", "C16", "numeric.hpp",
    [("        return s4 * s2 * s;", "        return s4 * s2 * s2;")],
    "the seventh power",
    "it is the eighth",
    """int main() { CHECK(gal::pow(2.0, std::integral_constant<int, 7>{}, std::integral_constant<int, 1>{}) == 128.0); return 0; }""")
bug("c16-pow-many", "C16", "numeric.hpp",
    [("        while (e > 1)\n        {\n            if ((e & 1) == 1)", "        while (e > 1)\n        {\n            if (e % 4 == 1 || (e & 3) == 3 && e > 3)")],
    "an exponent of nine or more whose binary form ends the reduction in 11",
    "a factor is lost",
    """int main() { double b = 1; for (int i = 0; i < 13; ++i) b *= 3;
    CHECK(gal::pow(3.0, std::integral_constant<int, 13>{}, std::integral_constant<int, 1>{}) == b); b *= 3; CHECK(gal::pow(3.0, std::integral_constant<int, 14>{}, std::integral_constant<int, 1>{}) == b); return 0; }""")
bug("c16-wide-pow2", "C16", "numeric.hpp",
    [("        s |= s >> 16;\n        s |= s >> 32;\n", "        s |= s >> 16;\n")],
    "rounding up a 64-bit number of 2^33 or more",
    "the result is not a power of two",
    """int main() { std::uint64_t x = (1ull << 40) + 5; CHECK(gal::next_pow_2(x) == (1ull << 41)); return 0; }""")
bug("c16-crc-entry", "C16", "crc.hpp",
    [("0x8cd37cf3", "0x8cd37cf8")],
    "a checksum that uses one particular table entry",
    "it is wrong",
    """int main() { for (unsigned b = 0; b < 256; ++b) { unsigned c = b; for (int k = 0; k < 8; ++k) c = (c >> 1) ^ (c & 1 ? 0xedb88320u : 0); CHECK(gal::detail::crc32_table[b] == c); } return 0; }""")
bug("c17-fifth-generator", "C17", "format.hpp",
    [("            while (e > 0)\n", "            while (e > 0 && j < 4)\n")],
    "formatting a component that contains the fifth generator",
    "its index is missing",
    """int main() { gal::entity<gal::cga::cga_algebra, double, 0b1, 0b10010> t{2, 3}; CHECK(gal::to_string(t) == "2e0 + 3e14"); return 0; }""")
bug("c17-separator", "C17", "format.hpp",
    [("            if (i != elements.size() - 1)", "            if (i != elements.size() - 1 && in[i + 1] >= 0)")],
    "formatting a negative component after another",
    "the separator disappears",
    """int main() { gal::entity<gal::vga::vga_algebra, double, 0b1, 0b10> t{2, -3}; CHECK(gal::to_string(t) == "2e0 + -3e1"); return 0; }""")
