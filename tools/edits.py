# ---- the expression builder
edit("scalar-product-order", "C03 C04 C05", "expr.hpp", [
    ("    if (lhs.back().checksum < rhs.back().checksum)\n    {\n        out.append(lhs);\n        out.append(rhs);\n    }\n    else\n    {\n        out.append(rhs);\n        out.append(lhs);\n    }\n", "    out.append(lhs);\n    out.append(rhs);\n")])
edit("plain-bloom", "C03 C04 C05", "expr.hpp", [
    ("        c |= 1 << (summand.checksum & 31);", "        c = c * 31 + summand.checksum + summand.ex;"),
    ("        c |= 1 << (ep_f.checksum & 31);", "        c = c * 37 + ep_f.checksum;")])
# ---- subexpressions: fewer of them are shared
edit("reversals-not-shared", "C03 C05 C06 C10 C12", "dfa.hpp", [
    ("            case op_comp:\n            case op_grd:\n                // Component and grade", "            case op_comp:\n            case op_rev:\n            case op_pd:\n            case op_grd:\n                // Component and grade"),
    ("            case op_rev:\n                // fallthrough\n            case op_pd: {\n                width_t offset = offsets.peek();", "            case 9999: {\n                width_t offset = offsets.peek();")])
edit("no-resize", "C02 C03 C05", "dfa.hpp", [
    ("n.checksum, gp.template resize<gp.size.ind, gp.size.mon, gp.size.term>())),", "n.checksum, gp.template resize<gp.size.ind + 1, gp.size.mon + 1, gp.size.term>())),")])
edit("sum-from-left", "C02 C03 C05 C06", "dfa.hpp", [
    ("split.first.apply([](auto... args) { return (args.second + ...); });", "split.first.apply([](auto... args) { return (... + args.second); });")])
# ---- symbolic arithmetic
edit("grade-by-push", "C02 C03 C10", "algebra.hpp", [
    ("""            else
            {
                *out_terms_it            = *it;
                out_terms_it->mon_offset = out_mons_it - out.mons.begin();
                ++out_terms_it;
                for (auto mon_it = it.cbegin(); mon_it != it.cend(); ++mon_it)
                {
                    *out_mons_it            = *mon_it;
                    out_mons_it->ind_offset = out_inds_it - out.inds.begin();
                    ++out_mons_it;
                    for (auto ind_it = mon_it.cbegin(); ind_it != mon_it.cend(); ++ind_it)
                    {
                        *out_inds_it++ = *ind_it;
                    }
                }
            }
        }

        out.size.term = out_terms_it - out.terms.begin();
        out.size.mon  = out_mons_it - out.mons.begin();
        out.size.ind  = out_inds_it - out.inds.begin();
        return out;""", """            out.push(it, one, it->element);
        }
        return out;"""),
    ("""        auto out_terms_it = out.terms.begin();
        auto out_mons_it  = out.mons.begin();
        auto out_inds_it  = out.inds.begin();

        for (auto it = cbegin(); it != cend(); ++it)
        {
            auto g = pop""", """        for (auto it = cbegin(); it != cend(); ++it)
        {
            auto g = pop""")])
edit("complement-loop", "C01 C08 C10", "algebra.hpp", [
    ("""        uint32_t swaps = 0;
        uint32_t grade = pop_count(element);
        while (element > 0)
        {
            if ((element & 1) == 0)
            {
                swaps += grade;
            }
            else
            {
                --grade;
            }
            element >>= 1;
        }
""", """        uint32_t swaps = 0;
        for (elem_t i = 0; i != dim; ++i)
        {
            if ((element >> i & 1) == 0)
            {
                swaps += pop_count(element >> i);
            }
        }
""")])
edit("insertion-sort", "C02 C03 C08 C15", "algorithm.hpp", [
    ("""            auto pivot  = *(last - 1);
            auto cursor = first;
            for (auto it = first; it != last - 1; ++it)
            {
                if (less(*it, pivot))
                {
                    swap(*cursor++, *it);
                }
            }
            swap(*(last - 1), *cursor);
            sort(first, cursor, less);
            sort(cursor + 1, last, less);""", """            for (auto it = first + 1; it != last; ++it)
            {
                for (auto at = it; at != first && less(*at, *(at - 1)); --at)
                {
                    swap(*at, *(at - 1));
                }
            }""")])
# ---- evaluation
edit("coefficients-plain", "C03 C06 C09 C11", "engine.hpp", [
    ("                if constexpr (abs(m.q.den) > 1)\n                {\n                    if constexpr (abs(m.q.num) > 1 || m.q.num == -1)", "                if constexpr (!m.q.is_unit())\n                {\n                    if constexpr (!m.q.is_unit())")])
edit("fill-helper", "C03 C14", "engine.hpp", [
    ("""    template <typename T, typename D, typename... Ds>
    GAL_FORCE_INLINE constexpr static void fill(""", """    template <typename T, typename P>
    GAL_FORCE_INLINE constexpr static void point_at(T* out, P const* p) noexcept
    {
        out->pointer    = p;
        out->is_pointer = true;
    }

    template <typename T, typename D, typename... Ds>
    GAL_FORCE_INLINE constexpr static void fill("""),
    ("            auto& iv      = *out;\n            iv.is_pointer = true;\n            iv.pointer    = &datum;", "            point_at(out, &datum);"),
    ("                auto& iv      = *(out + i);\n                iv.is_pointer = true;\n                iv.pointer    = &datum[i];", "                point_at(out + i, &datum[i]);")])
# ---- rationals, powers, words
edit("rat-reduce", "C02 C03 C07", "numeric.hpp", [
    ("""    rat product{lhs.num * rhs.num, lhs.den * rhs.den};
    if (product.num == 0)
    {
        return zero;
    }
    else if (product.den > 1)
    {
        // Periodically reduce the fraction if possible to prevent overflow
        return detail::overflow_gate(product);
    }
    else
    {
        return product;
    }""", """    rat const product{lhs.num * rhs.num, lhs.den * rhs.den};
    return product.is_zero() ? zero : detail::overflow_gate(product);""")])
edit("int-times-rat-reduced", "C02 C03 C07", "numeric.hpp", [
    ("        return {rhs.num * lhs, rhs.den};", "        auto const g = std::gcd(rhs.num * lhs, rhs.den);\n        return {rhs.num * lhs / g, rhs.den / g};")])
edit("pow-plain", "C03 C16", "numeric.hpp", [
    ("""        T temp1{1};
        T temp2{s};
        int e = N;
        while (e > 1)
        {
            if ((e & 1) == 1)
            {
                temp1 *= temp2;
            }
            temp2 *= temp2;
            e = e >> 1;
        }
        return temp1 * temp2;""", """        T out{s};
        for (int i = 1; i != N; ++i)
        {
            out *= s;
        }
        return out;""")])
# ---- entities and text
edit("motor-order", "C11 C13", "pga.hpp", [
    ("            return {data[1], data[2], data[3], data[4], data[5], data[6]};", "            entity<pga_algebra, T, 0b11, 0b101, 0b110, 0b1001, 0b1010, 0b1100> out{};\n            for (size_t i = 0; i != 6; ++i)\n            {\n                out[i] = data[i + 1];\n            }\n            return out;")])
edit("normalize-divide", "C13", "pga.hpp", [
    ("            x           = x * l2_inv;", "            x /= T{1} / l2_inv;")])
edit("text-separator-first", "C17", "format.hpp", [
    ("            stream << in[i];\n", "            stream << (i == 0 ? \"\" : \" + \") << in[i];\n"),
    ("            if (i != elements.size() - 1)\n            {\n                stream << \" + \";\n            }\n", "")])
edit("stack-top", "C05 C15", "stack.hpp", [
    ("        constexpr T pop() noexcept\n        {\n            return data[--count];", "        constexpr T pop() noexcept\n        {\n            return pop(1);")])
edit("null-helper", "C08 C13", "null_algebra.hpp", [
    ("                    temp.push(it, minus_one, it->element ^ noi);\n                    temp.push(it, one, it->element);", "                    temp.push(it, one, it->element);\n                    temp.push(it, minus_one, it->element ^ noi);")])
