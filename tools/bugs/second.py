D = """using V = gal::vga::vector<double>; using S = gal::scalar<gal::vga::vga_algebra, double>;
"""
# ---------------------------------------------------------------- C13
bug("c13-log-half-turn", "C13", "pga.hpp",
    [("scalar<pga_algebra, T> v{s1_zero ? -p1 / s2 : p2 / s1};", "scalar<pga_algebra, T> v{s1_zero ? p1 / s2 : p2 / s1};")],
    "the logarithm of a screw motion by exactly half a turn (its scalar part vanishes)",
    "the pitch of the logarithm has the wrong sign there",
    """int main() { using namespace gal; using namespace gal::pga; rotor<double> r{3.14159265358979323846, 0, 0, 1}; translator<double> t{2.5, 0, 0, 1};
    motor<double> m = compute([](auto r, auto t) { return t * r; }, r, t);
    auto b = m.log(); motor<double> e = compute([](auto b) { return gal::exp(b); }, b);
    for (int i = 0; i < 8; ++i) CHECK(near(e[i], m[i])); return 0; }""")
bug("c13-exp-screw", "C13", "expr.hpp",
    [("auto ideal    = sinu + v * cosu *", "auto ideal    = sinu - v * cosu *")],
    "the exponential of a bivector with both a rotation and a translation along its axis",
    "the translation along the axis is lost or reversed",
    """int main() { using namespace gal; using namespace gal::pga; rotor<double> r{1.0, 0, 0.6, 0.8}; translator<double> t{1.5, 0, 1, 0};
    motor<double> m = compute([](auto r, auto t) { return t * r; }, r, t);
    auto b = m.log(); motor<double> e = compute([](auto b) { return gal::exp(b); }, b);
    for (int i = 0; i < 8; ++i) CHECK(near(e[i], m[i])); return 0; }""")
bug("c13-motor-norm-sign", "C13", "pga.hpp",
    [("m2[1]       = -v / (2 * sqrt_u * u);", "m2[1]       = -v / (2 * u);")],
    "normalising a motor whose norm is not one and whose study condition fails",
    "the ideal part is scaled wrongly",
    """int main() { using namespace gal; using namespace gal::pga; motor<double> m{2, .5, -1, 1, .3, .7, -2, 3};
    m.normalize(); auto n = compute([](auto m) { return m * ~m; }, m);
    CHECK(near(n.select<0>(), 1)); CHECK(near(1 + n.select<15>(), 1)); return 0; }""")
bug("c13-vga-normalize", "C13", "vga.hpp",
    [("""        void normalize() noexcept
        {
            auto l2_inv = T{1} / std::sqrt(x * x + y * y + z * z);
            x           = x * l2_inv;
            y           = y * l2_inv;
            z           = z * l2_inv;
        }

        GAL_NODISCARD""", """        void normalize() noexcept
        {
            auto l2_inv = T{1} / std::sqrt(x * x + y * y + z * z);
            x           = x * l2_inv;
            y           = y * l2_inv;
            z           = std::sqrt(T{1} - x * x - y * y);
        }

        GAL_NODISCARD""")],
    "normalising a vector with a negative last coordinate",
    "the last coordinate changes sign",
    """int main() { gal::vga::vector<double> v{3, 0, -4}; v.normalize(); CHECK(near(v.z, -.8)); return 0; }""")
# ---------------------------------------------------------------- C14
bug("c14-float-type", "C14", "expr.hpp",
    [("                return rpne_entities<A, S, Ds...>(out, current_id + D::size(), i + 1);", "                return rpne_entities<A, S, Ds...>(out, current_id + sizeof(D) / sizeof(typename D::value_t), i + 1);")],
    "an argument of the empty entity followed by another",
    "the later parameter denotes the value one slot further on",
    """int main() { using namespace gal; using A = vga::vga_algebra; entity<A, double> z; vga::vector<double> a{1, 2, 3}; vga::vector<double> b{4, 5, 6};
    auto r = vga::compute([](auto a, auto z, auto b) { return a + b; }, a, z, b); CHECK(near(r[0], 5) && near(r[1], 7) && near(r[2], 9)); return 0; }""")
# ---------------------------------------------------------------- C12
bug("c12-scale-once", "C12", "engine.hpp",
    [("                result_finalizer<A, V, results, size - I - 1>::compute(data, n, d)...);", "                result_finalizer<A, V, results, (I < 3 ? size - I - 1 : I)>::compute(data, n, d)...);")],
    "a lambda that returns four or more results", "the later results are permuted",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 6}; auto [p, q, r, s] = gal::vga::compute([](auto a, auto b) { return gal::make_tuple(a, b, a * b, a ^ b); }, a, b);
    CHECK(near(p[0], 1)); CHECK(near(q[0], 4)); CHECK(near(r.select<0>(), 32)); CHECK(near(s.select<3>(), -3)); return 0; }""")
bug("c12-temp-scope", "C12", "dfa.hpp",
    [("                n.o        = op_cse;\n                n.checksum = c.offset + c.count;\n                n.ex       = i;", "                n.o        = op_cse;\n                n.checksum = c.offset + c.count;\n                n.ex       = cse_count - 1;")],
    "a repeated subexpression that is not extracted, before one that is", "a reference denotes another temporary",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 6}; auto [p, q] = gal::vga::compute([](auto a, auto b) { auto t = a * b; auto u = t * a; return gal::make_tuple(u * u, (b * a) * u); }, a, b);
    auto u = gal::vga::compute([](auto a, auto b) { return a * b * a; }, a, b); gal::vga::vector<double> uv = u;
    CHECK(near(p.select<0>(), uv[0] * uv[0] + uv[1] * uv[1] + uv[2] * uv[2])); return 0; }""")
# ---------------------------------------------------------------- C05
bug("c05-node-denominator", "C05", "expr.hpp",
    [("                   && q.num == other.q.num && q.den == other.q.den;", "                   && q.num == other.q.num && (o >= op_comp || q.den * other.q.den < 0 || q.den == other.q.den || (o == op_se && q.den > 2 && other.q.den > 2));")],
    "two subexpressions that differ only in the denominators, above two, of a summand's scale",
    "they are taken to be equal",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 6};
    auto r = gal::vga::compute([](auto a, auto b) { auto x = a + b / 3; auto y = a + b / 5; return (x * x) * (y * y); }, a, b);
    double s = 0, t = 0; for (int i = 0; i < 3; ++i) { s += (a[i] + b[i] / 3) * (a[i] + b[i] / 3); t += (a[i] + b[i] / 5) * (a[i] + b[i] / 5); }
    CHECK(near(r.select<0>(), s * t)); return 0; }""")
bug("c05-stale-reference", "C05", "dfa.hpp",
    [("                    for (width_t j = se_count - n.ex; j != se_count; ++j)\n                    {\n                        se_refs[j] = 0;\n                    }\n\n                    se_count -= n.ex;\n\n                    node& ref", "                    se_count -= n.ex;\n\n                    node& ref")],
    "a repeated sum followed by another sum with a fresh summand in the same position, repeated",
    "a use count is decremented once too often, so a temporary is referred to but not written",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 6}, c{7, 8, 10}, d{1, -1, 2};
    auto r = gal::vga::compute([](auto a, auto b, auto c, auto d) {
        auto x = a * b + c; auto y = (c * d + a); return ((x * x) * (a * b)) * ((y * y) * (c * d)); }, a, b, c, d);
    auto p = gal::vga::compute([](auto a, auto b, auto c) { return a * b + c; }, a, b, c);
    auto q = gal::vga::compute([](auto a, auto b, auto c) { return a * b + c; }, c, d, a);
    auto pp = gal::vga::compute([](auto p) { return p * p; }, p); auto qq = gal::vga::compute([](auto p) { return p * p; }, q);
    auto w = gal::vga::compute([](auto pp, auto qq, auto a, auto b, auto c, auto d) { return (pp * (a * b)) * (qq * (c * d)); }, pp, qq, a, b, c, d);
    for (unsigned e = 0; e < 8; ++e) CHECK(near(std::as_const(r).select(e), std::as_const(w).select(e))); return 0; }""")
bug("c05-chain", "C05", "dfa.hpp",
    [("                if (*lhs_n != *rhs_n)\n                {\n                    return false;\n                }\n                ++i;", "                if (lhs_n->o != rhs_n->o || (lhs_n->checksum != rhs_n->checksum && lhs_n->o != op_id))\n                {\n                    return false;\n                }\n                ++i;")],
    "two sums of different scale over the same summands, each inside a repeated subexpression",
    "subexpressions differing only in scale are shared",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 6};
    auto r = gal::vga::compute([](auto a, auto b) { auto x = a + 2 * b; auto y = a + 3 * b; return (x * x) * (y * y); }, a, b);
    double s = 0, t = 0; for (int i = 0; i < 3; ++i) { s += (a[i] + b[i] * 2) * (a[i] + b[i] * 2); t += (a[i] + b[i] * 3) * (a[i] + b[i] * 3); }
    CHECK(near(r.select<0>(), s * t)); return 0; }""")
# ---------------------------------------------------------------- C06
bug("c06-zero-kept", "C06", "algebra.hpp",
    [("                width_t mon_count = static_cast<width_t>(out_mon_it - mon_cursor);\n                if (mon_count != 0)\n                {", "                width_t mon_count = static_cast<width_t>(out_mon_it - mon_cursor);\n                if (mon_count != 0 || (lhs_it->element == 0 && lhs_it->count > 1))\n                {")],
    "a sum whose scalar parts, of several monomials, cancel", "the cancelled component stays in the result",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 6}; auto r = gal::vga::compute([](auto a, auto b) { return a * b - (b | a); }, a, b);
    CHECK(r.size() == 3); return 0; }""")
bug("c06-drop-last", "C06", "algebra.hpp",
    [("            if (mon_count > 0)\n            {\n                *out_terms_it++ = term{", "            if (mon_count > 0 && !(mon_count == 1 && mon_cursor->q.den > 512))\n            {\n                *out_terms_it++ = term{")],
    "a component consisting of one monomial with a very small rational coefficient", "the component is dropped although it need not vanish",
    D + """int main() { V a{1, 2, 3}; auto r = gal::vga::compute([](auto a) { return (a / 25 + 1_e12) * (a / 25); }, a); 
    (void)r; auto s = gal::vga::compute([](auto a) { auto x = a / 25 + 1_e012; return (x[1] * x[2]); }, a); CHECK(s.size() == 1 && near(s.select<0>() * 625, 2)); return 0; }""".replace("1_e12", "gal::detail::rpne_pseudoscalar<gal::vga::vga_algebra>(1)").replace("1_e012", "gal::detail::rpne_pseudoscalar<gal::vga::vga_algebra>(1)"))
# ---------------------------------------------------------------- C09
bug("c09-integer-over", "C09", "expr.hpp",
    [("    out.back().q = rat{lhs, 1} / rhs.q;", "    out.back().q = rat{lhs, 1} / (rhs.q.num < 0 ? -rhs.q : rhs.q);")],
    "an integer divided by a negated expression", "the sign is lost",
    D + """int main() { S s{4}; auto r = gal::vga::compute([](auto s) { return 2 / -s; }, s); CHECK(near(r.select<0>(), -.5)); return 0; }""")
bug("c09-constant-order", "C09", "expr.hpp",
    [("constexpr auto operator/(detail::rpne_constant c, int d) noexcept\n{\n    c.q *= rat{1, d};", "constexpr auto operator/(detail::rpne_constant c, int d) noexcept\n{\n    c.q = rat{c.q.num, d};")],
    "a constant divided by integers twice", "only the last divisor counts",
    D + """int main() { S s{4}; auto r = gal::vga::compute([](auto s) { return s * (gal::PI / 2 / 3); }, s); CHECK(near(r.select<0>(), 4 * 3.14159265358979 / 6)); return 0; }""")
bug("c09-cos-even", "C09", "expr.hpp",
    [("    out.append(detail::op_cos);\n    out.back().q = in.q;", "    out.append(detail::op_cos);\n    out.back().q = in.q.num < 0 && in.q.den != 1 ? in.q.reciprocal() : in.q;")],
    "the cosine of a negative fraction of an expression", "the fraction is inverted",
    D + """int main() { S s{4}; auto r = gal::vga::compute([](auto s) { return cos(-s / 3); }, s); CHECK(near(r.select<0>(), std::cos(4.0 / 3))); return 0; }""")
# ---------------------------------------------------------------- C10
bug("c10-grade-offset", "C10", "algebra.hpp",
    [("                    out_mons_it->ind_offset = out_inds_it - out.inds.begin();\n                    ++out_mons_it;\n                    for (auto ind_it = mon_it.cbegin(); ind_it != mon_it.cend(); ++ind_it)\n                    {\n                        *out_inds_it++ = *ind_it;\n                    }\n                }\n            }\n        }\n\n        out.size.term", "                    out_mons_it->ind_offset = out_inds_it - out.inds.begin();\n                    ++out_mons_it;\n                    for (auto ind_it = it.cbegin().cbegin(); ind_it != it.cbegin().cend(); ++ind_it)\n                    {\n                        *out_inds_it++ = *ind_it;\n                    }\n                }\n            }\n        }\n\n        out.size.term")],
    "grade selection of a component that is a sum of several monomials", "the first monomial's indeterminates are repeated",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 6}; auto r = gal::vga::compute([](auto a, auto b) { return (a * b).select_grade(0); }, a, b); CHECK(near(r.select<0>(), 32)); return 0; }""")
bug("c10-complement", "C10", "algebra.hpp",
    [("            if ((element & 1) == 0)\n            {\n                swaps += grade;", "            if ((element & 1) == 0)\n            {\n                swaps += grade > 2 ? 2 : grade;")],
    "the dual of an element of grade three that leaves out a low generator", "the sign of the dual is wrong",
    """int main() { auto [g, s] = gal::detail::poincare_complement(0b11100, 5); auto p = gal::algebra<gal::metric<5, 0, 0>>::exterior::product(0b11100, g); CHECK(p.second == s);
    auto [h, t] = gal::detail::poincare_complement(0b1110, 4); auto q = gal::algebra<gal::metric<4, 0, 0>>::exterior::product(0b1110, h); CHECK(q.second == t); return 0; }""")
bug("c10-extract-gap", "C10", "algebra.hpp",
    [("            if (term->element > *element)\n            {\n                ++element;\n            }\n            else if (term->element < *element)\n            {\n                ++term;\n            }", "            if (term->element < *element)\n            {\n                ++term;\n            }\n            else if (term->element > *element)\n            {\n                ++element;\n                ++term;\n            }")],
    "extracting an element that is absent and precedes one that is present", "the present one is skipped",
    """int main() { using namespace gal; auto m = vga::vector<double>::ie(0); auto r = detail::extract(m, std::array<elem_t, 2>{0, 1}); CHECK(r.size.term == 1 && r.terms[0].element == 1); return 0; }""")
# ---------------------------------------------------------------- C04
bug("c04-merge-both", "C04", "expr.hpp",
    [("                    rat q = lhs_summand.q * lhs.q + rhs_summand.q * rhs.q;", "                    rat q = lhs_summand.q * lhs.q + rhs_summand.q * (lhs.q.num == rhs.q.num ? lhs.q : rhs.q);")],
    "two sums with a common summand, scaled by different fractions of equal numerator", "the common summand gets the wrong scale",
    D + """int main() { V a{1, 2, 3}, b{4, 5, 6}, c{7, 8, 9}; auto r = gal::vga::compute([](auto a, auto b, auto c) { return (a + b) / 2 + (a + c) / 3; }, a, b, c);
    CHECK(near(r[0], 1 / 2. + 1 / 3. + 4 / 2. + 7 / 3.)); return 0; }""")
bug("c04-ep-second", "C04", "expr.hpp",
    [("            factor_count = rhs.back().ex + 1;\n            out.nodes[out.count++]\n                = detail::node{detail::op_se, lhs.back().checksum, lhs.count, zero};\n            out.append(lhs);\n            out.append_omit_ends(rhs);", "            factor_count = rhs.back().ex + 1;\n            if (rhs.back().ex == 2 && rhs.nodes[0].checksum < lhs.back().checksum && lhs.count == 1)\n            {\n                out.append_omit_ends(rhs);\n                out.nodes[out.count++]\n                    = detail::node{detail::op_se, lhs.back().checksum, lhs.count, zero};\n                out.append(lhs);\n            }\n            else\n            {\n                out.nodes[out.count++]\n                    = detail::node{detail::op_se, lhs.back().checksum, lhs.count, zero};\n                out.append(lhs);\n                out.append_omit_ends(rhs);\n            }")],
    "a wedge of an odd factor with a wedge of two whose first factor has odd grade times even", "moving the factor across changes the sign when grades are odd",
    """int main() { using namespace gal; pga::plane<double> a{1, 2, 3, 4}, b{5, 6, 7, 9}; pga::motor<double> m{1, 2, 3, 4, 5, 6, 7, 8};
    auto r = pga::compute([](auto a, auto b, auto m) { return b ^ (a ^ m); }, a, b, m); auto t = pga::compute([](auto b, auto c) { return b ^ c; }, b, pga::compute([](auto a, auto m) { return a ^ m; }, a, m));
    for (unsigned e = 0; e < 16; ++e) CHECK(near(std::as_const(r).select(e), std::as_const(t).select(e)));
    vga::vector<double> x{1, 2, 3}, y{4, 5, 6}; scalar<vga::vga_algebra, double> s{2}; auto u = vga::compute([](auto x, auto y, auto s) { return y ^ (x ^ (1 + s * x)); }, x, y, s); CHECK(near(u.select<3>(), 4 * 2 - 5 * 1)); return 0; }""")
bug("c04-reverse-wedge", "C04", "expr.hpp",
    [("    if (in.back().o == detail::op_rev)\n    {\n        --out.count;\n    }", "    if (in.back().o == detail::op_rev || (in.count == 1 && in.back().o == detail::c_scalar + 3))\n    {\n        out.count -= in.count > 1;\n    }")],
    "the reverse of the literal bivector on the first two generators", "its sign is not flipped",
    """int main() { using namespace gal; vga::vector<double> a{1, 2, 3}; auto r = vga::compute([](auto a) { return ~gal::vga::operator"" _e01(1ULL) + a; }, a); CHECK(near(r.select<3>(), -1)); return 0; }""")
# ---------------------------------------------------------------- C02
bug("c02-resize", "C02", "algebra.hpp",
    [("            out.size = size;\n            for (size_t i = 0; i != out.size.ind; ++i)", "            out.size = size;\n            for (size_t i = 0; i < out.size.ind && i < 64; ++i)")],
    "a multivector with more than sixty-four indeterminate occurrences", "the later ones are lost when it is resized",
    """int main() { using namespace gal; pga::motor<double> m{1, 2, 3, 4, 5, 6, 7, 8}, n{2, -1, 3, 5, -4, 1, 2, 2};
    auto r = pga::compute([](auto m, auto n) { return m * n; }, m, n);
    double w = 8 * 2 + 7 * -1 - 6 * 3 * -1 * 0; (void)w; auto t = pga::compute([](auto n, auto m) { return ~(~n * ~m); }, n, m);
    for (unsigned e = 0; e < 16; ++e) { auto a = std::as_const(r).select(e); auto b = std::as_const(t).select(e); CHECK(near(a, b)); }
    CHECK(near(r.select<15>(), 1 * 2 + 8 * 2 + 2 * 2 + 7 * -1 - (3 * 1 + 6 * 3) + 4 * -4 + 5 * 5)); return 0; }""")
bug("c02-scale-degree", "C02", "algebra.hpp",
    [("        for (size_t i = 0; i != size.mon; ++i)\n        {\n            mons[i].q = q * mons[i].q;\n        }", "        for (size_t i = 0; i != size.mon; ++i)\n        {\n            mons[i].q = i > 0 && mons[i].q == mons[i - 1].q ? mons[i - 1].q : q * mons[i].q;\n        }")],
    "scaling where an already scaled coefficient equals the next original one", "the next coefficient is left unscaled",
    D + """int main() { V a{1, 2, 3}; auto r = gal::vga::compute([](auto a) { return 2 * (a[1] + 2 * a[2]) * 1 + a; }, a); (void)r; return 0; }""".replace(" * 1", ""))
# ---------------------------------------------------------------- C07/C16/C15/C17
bug("c07-gate-tiny", "C07", "numeric.hpp",
    [("                if (abs(frac) < 1e-7)", "                if (abs(frac) < 1e-5)")],
    "a fraction between 1e-7 and 1e-5", "it is flushed to zero, an error above one millionth",
    """int main() { gal::rat r = gal::rat{1, 1000} * gal::rat{7, 1000}; CHECK(std::fabs(double(r.num) / r.den - 7e-6) < 1e-6); return 0; }""")
bug("c07-plus-assign", "C07", "numeric.hpp",
    [("        num = num * other.den + other.num * den;\n        if (num == 0)", "        num = den == other.den ? num + other.num : num * other.den + other.num * den;\n        if (num == 0)")],
    "compound addition of fractions with equal denominators", "the sum is divided by the denominator once too often",
    """int main() { gal::rat a{1, 3}; a += gal::rat{1, 3}; CHECK(a.num * 3 == 2 * a.den); return 0; }""")
bug("c07-int-quotient", "C07", "numeric.hpp",
    [("    if (rhs < 0)\n    {\n        lhs.num = -lhs.num;\n        lhs.den *= -rhs;\n    }", "    if (rhs < 0 && lhs.num > 0)\n    {\n        lhs.num = -lhs.num;\n        lhs.den *= -rhs;\n    }")],
    "a negative fraction divided by a negative integer", "the denominator is negative",
    """int main() { auto r = gal::rat{-3, 4} / -5; CHECK(r.den > 0 && r.num == 3 && r.den == 20); return 0; }""")
bug("c15-split-drop", "C15", "tuple.hpp",
    [("        auto const parts = split<I>();\n        return make_pair(parts.first, parts.second.pop().second);", "        auto const parts = split<I>();\n        return make_pair(parts.first, split<(I + 1 < sizeof...(T) ? I + 1 : I)>().second);")],
    "dropping the last element", "it is kept",
    """int main() { auto t = gal::make_tuple(1, 2L, 3.0); auto p = t.split_drop<2>(); CHECK(decltype(p.second)::size() == 0); return 0; }""")
bug("c15-find", "C15", "tuple.hpp",
    [("        if constexpr (std::is_same_v<detail::nth_element<I, T...>, E>)", "        if constexpr (std::is_same_v<detail::nth_element<(sizeof...(T) > 4 ? sizeof...(T) - 1 - I : I), T...>, E>)")],
    "searching a tuple of five or more elements", "positions are counted from the end",
    """int main() { using T = gal::tuple<int, long, double, char, float>; CHECK(T::find_t<long>() == 1); return 0; }""")
bug("c15-peek", "C15", "stack.hpp",
    [("            return data[count - i];", "            return data[i < 3 ? count - i : count - i - 1];")],
    "peeking three or more deep", "the element one further down is returned",
    """int main() { gal::detail::stack<int, 8> s; for (int i = 0; i < 6; ++i) s.push(i); auto const& c = s; CHECK(c.peek(1) == 5 && c.peek(3) == 3); return 0; }""")
bug("c16-rot", "C16", "numeric.hpp",
    [("    return (input >> 8) | ((input & 0xff) << 24);", "    return (input >> 8) + ((input & 0x7f) << 24);")],
    "a byte with its top bit set", "the bit is lost",
    """int main() { CHECK(gal::rot32(0x80u) == 0x80000000u); return 0; }""")
bug("c16-root", "C16", "numeric.hpp",
    [("        return std::pow(s, T{N} / T{D});", "        return D == 2 && N > 2 ? std::sqrt(s) * s : std::pow(s, T{N} / T{D});")],
    "a half-integral power above three halves", "the power is that of three halves",
    """int main() { CHECK(near(gal::pow(4.0, std::integral_constant<int, 5>{}, std::integral_constant<int, 2>{}), 32)); return 0; }""")
bug("c17-short", "C17", "format.hpp",
    [("            stream << in[i];\n            auto e = elements[i];", "            auto e = elements[i];\n            if (!(in[i] == 1 && e > 0 && elements.size() > 3))\n            {\n                stream << in[i];\n            }")],
    "a unit component in an entity of four or more components", "its value is left out",
    """int main() { gal::pga::point<double> p{2, 1, 3, 1}; CHECK(gal::to_string(p) == "2e012 + 1e013 + 3e023 + 1e123"); return 0; }""")
# ---------------------------------------------------------------- C11/C08/C03/C01
bug("c11-line-moment", "C11", "pga.hpp",
    [(": data{in.template select<0b1100, 0b1010, 0b110, 0b11, 0b101, 0b1001>()}\n        {\n            mx = -mx;\n            my = -my;", ": data{in.template select<0b1100, 0b1010, 0b110, 0b11, 0b101, 0b1001>()}\n        {\n            mx = -mx;\n            my = sizeof...(E) == 5 ? my : -my;")],
    "a line read from a multivector with exactly five components", "one moment has the wrong sign",
    """int main() { using namespace gal; entity<pga::pga_algebra, double, 3, 5, 6, 9, 10> e{1, 2, 3, 4, 5}; pga::line<double> l = e; CHECK(near(l.my, -2)); return 0; }""")
bug("c11-vector2", "C11", "pga2.hpp",
    [(": data{in.template select<0b101, 0b11>()}", ": data{in.template select<0b101, 0b110>()}")],
    "reading a planar vector back from a multivector", "the other coordinate is read from the wrong component",
    """int main() { using namespace gal; pga2::vector<double> v{2, 3}; pga2::vector<double> w = pga2::compute([](auto v) { return v; }, v); CHECK(near(w.x, 2) && near(w.y, 3)); return 0; }""")
bug("c11-indexof", "C11", "entity.hpp",
    [("        else if constexpr (sizeof...(Es) == 0)\n        {\n            return -1;\n        }", "        else if constexpr (sizeof...(Es) == 0 || E1 > E + 15)\n        {\n            return -1;\n        }")],
    "an entity of the conformal algebra whose components are not listed in ascending order", "a component after a much larger one reads as zero",
    """int main() { using namespace gal; entity<cga::cga_algebra, double, 0b11000, 1> e{2, 3}; CHECK(near(std::as_const(e).select(1), 3)); return 0; }""")
bug("c08-literal-ni", "C08", "null_algebra.hpp",
    [("                    temp.push(it, minus_one, it->element ^ noi);\n                    temp.push(it, one, it->element);", "                    temp.push(it, pop_count(it->element) > 3 ? one : minus_one, it->element ^ noi);\n                    temp.push(it, one, it->element);")],
    "a component of grade four containing infinity but not the origin", "its conversion to the orthonormal basis has a wrong sign",
    """int main() { using namespace gal; entity<cga::cga_algebra, double, 0b10111> e{2}; auto r = cga::compute([](auto e) { return e; }, e); CHECK(near(std::as_const(r).select(0b10111), 2) && near(1 + std::as_const(r).select(0b1111), 1)); return 0; }""")
bug("c03-shift-sign", "C03", "expr.hpp",
    [("constexpr auto operator-(detail::rpne<A, S> const& lhs, int n)\n{\n    return detail::rpne_from_constant<A>(-n, 1) + lhs;", "constexpr auto operator-(detail::rpne<A, S> const& lhs, int n)\n{\n    return detail::rpne_from_constant<A>(n > 1 ? -n : -1, 1) + lhs;")],
    "subtracting zero or a negative integer", "one is subtracted instead",
    D + """int main() { S s{5}; auto r = gal::vga::compute([](auto s) { return s - (-3); }, s); CHECK(near(r.select<0>(), 8)); return 0; }""")
bug("c03-monomial-scale", "C03", "engine.hpp",
    [("                if constexpr (abs(m.q.den) > 1)\n                {\n                    if constexpr (abs(m.q.num) > 1 || m.q.num == -1)", "                if constexpr (abs(m.q.den) > 1)\n                {\n                    if constexpr (abs(m.q.num) > 1)")],
    "a monomial with coefficient minus one over n", "the sign is dropped",
    D + """int main() { V a{1, 2, 3}; auto r = gal::vga::compute([](auto a) { return a - a * a * a / 2; }, a); CHECK(near(r[0], 1 - 7)); return 0; }""")
bug("c03-percent", "C03", "expr.hpp",
    [("    return rhs * lhs * (~rhs);", "    return rhs * lhs * ~(rhs.q.num < 0 ? -rhs : rhs);")],
    "sandwiching with a negated operator", "the result has the wrong sign",
    """int main() { using namespace gal; vga::rotor<double> r{1, 0, 0, 1}; vga::vector<double> v{1, 2, 3}; auto p = vga::compute([](auto v, auto r) { return v % (-r); }, v, r); auto q = vga::compute([](auto v, auto r) { return v % r; }, v, r); CHECK(near(p.select<4>(), q.select<4>()) && near(q.select<4>(), 3)); return 0; }""")
bug("c01-sip-degenerate", "C01", "geometric_algebra.hpp",
    [("                if (grade == target_grade)\n                {\n                    return {g, multiplier};", "                if (grade == target_grade)\n                {\n                    return {g, grade1 > 3 && grade2 == grade1 ? -multiplier : multiplier};")],
    "the inner product of two blades of equal grade four or more", "its sign is wrong",
    """int main() { using A = gal::algebra<gal::metric<5, 0, 0>>; auto p = A::symmetric_inner::product(31, 31); CHECK(p.second == A::geometric::product(31, 31).second); return 0; }""")
bug("c01-wide-exterior", "C01", "geometric_algebra.hpp",
    [("                    while (g1 > 0)\n                    {\n                        auto lhs_g = leading_set_index(g1);\n                        swaps += pop_count(g2 & ((1 << lhs_g) - 1));", "                    while (g1 > 0)\n                    {\n                        auto lhs_g = leading_set_index(g1);\n                        swaps += pop_count(g2 & ((1 << lhs_g) - 1) & 63);")],
    "an exterior product in seven or more dimensions", "swaps past high generators are not counted",
    """int main() { using A = gal::algebra<gal::metric<8, 0, 0>>; auto p = A::exterior::product(0x80, 0x40); CHECK(p.second == -1); return 0; }""")
