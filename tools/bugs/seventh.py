D = """using V = gal::vga::vector<double>; using S = gal::scalar<gal::vga::vga_algebra, double>;
"""
bug("c05-seventh", "C05", "dfa.hpp",
    [("            if (c.refs > 1 || c.required)", "            if ((c.refs > 1 && cse_count < 6) || c.required)")],
    "seven different subexpressions that each occur twice", "the seventh is not factored out although its second occurrence refers to it",
    D + """int main() { S a{2}, b{3}, c{5}, d{7};
    auto const r = gal::vga::compute([](auto a, auto b, auto c, auto d) { auto p = a * b; auto q = a * c; auto r = a * d; auto s = b * c; auto t = b * d; auto u = c * d; auto v = a * a;
      return (p * c + q * d) * (r * c + s * d) + (t * p + u * q) * (v * r + p * s) + (q * t + r * u) * (s * v + t * b) + (u * b + v * c); }, a, b, c, d);
    double p = 6, q = 10, rr = 14, s = 15, t = 21, u = 35, v = 4;
    CHECK(near(r[0], (p * 5 + q * 7) * (rr * 5 + s * 7) + (t * p + u * q) * (v * rr + p * s) + (q * t + rr * u) * (s * v + t * 3) + (u * 3 + v * 5))); return 0; }""")
bug("c17-zero-skip", "C17", "format.hpp",
    [("            stream << in[i];\n", "            if (i > 0 && in[i] == 0 && i + 1 != elements.size()) { continue; }\n            stream << in[i];\n")],
    "an entity with a zero in the middle", "that component is left out",
    """#include <gal/format.hpp>
int main() { gal::entity<gal::vga::vga_algebra, double, 1, 2, 4> e{1, 0, 3}; CHECK(gal::to_string(e) == "1e0 + 0e1 + 3e2"); return 0; }""")
bug("c06-twentyfive", "C06", "engine.hpp",
    [("                data, n, d, std::make_index_sequence<null_conversion.size.term>());", "                data, n, d, std::make_index_sequence<(null_conversion.size.term > 24 ? 24 : null_conversion.size.term)>());")],
    "a conformal result with more than twenty-four components", "the last ones are missing",
    """template <unsigned... I> auto mk(std::integer_sequence<unsigned, I...>) { return gal::entity<gal::cga::cga_algebra, double, I...>{(1.0 + I)...}; }
int main() { auto e = mk(std::make_integer_sequence<unsigned, 32>{}); auto const r = gal::cga::compute([](auto a) { return 2 * a; }, e); CHECK(near(r.select(31), 64)); return 0; }""")
