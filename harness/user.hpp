#pragma once
#include <gal/engine.hpp>
#include <gal/geometric_algebra.hpp>
#include <gal/null_algebra.hpp>

// Metrics that a user might define.
namespace vh
{
template <typename A>
constexpr gal::detail::rpne<A, 1> lit(int n, uint32_t e)
{
    uint32_t op = gal::detail::c_scalar + e;
    return {{gal::detail::node{op, op}}, 1, gal::rat{n, 1}};
}
#define VH_ALGEBRA(NAME, P, V, R)                                                                  \
    namespace NAME                                                                                 \
    {                                                                                              \
        using NAME##_algebra = gal::algebra<gal::metric<P, V, R>>;                                 \
        template <typename L, typename... D>                                                       \
        auto compute(L lambda, D const&... x) { return gal::detail::compute<NAME##_algebra>(lambda, x...); } \
    }
VH_ALGEBRA(sta, 1, 3, 0)
VH_ALGEBRA(mixed, 2, 1, 1)
VH_ALGEBRA(flat, 2, 0, 0)
VH_ALGEBRA(deep, 2, 1, 2)
VH_ALGEBRA(cra, 3, 1, 0)   // the plane's conformal model, over its null basis
} // namespace vh
template <>
constexpr inline bool gal::detail::uses_null_basis<vh::cra::cra_algebra> = true;
