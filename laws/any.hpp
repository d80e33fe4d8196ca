#pragma once
#include "pair.hpp"

namespace laws
{
// an arbitrary constraint of two bodies: any error, rates, bias and bounds
template <Uint32 dim>
struct Any
{
    static constexpr Uint32 nBodies   = 2;
    static constexpr Uint32 dimension = dim;
    typedef Vector<float, dim>    Value;
    typedef Matrix<float, dim, 6> Jacobian;

    Value    C, b;
    Jacobian J;

    Value    eval(const Proxies&) const { return C; }
    Value    bias(const Proxies&) const { return b; }
    Jacobian jacobian(const Proxies&) const { return J; }
    Value    clampLambda(Value l, float) const { return l; }
    Value    clampPositionLambda(Value l) const { return l; }
};
// the same, impulses limited to an interval
template <Uint32 dim>
struct Bounded : Any<dim>
{
    float lo, hi;
    typedef typename Any<dim>::Value Value;
    Value clampLambda(Value l, float) const
    {
        for (float& x : l)
            x = x < lo ? lo : hi < x ? hi : x;
        return l;
    }
    Value clampPositionLambda(Value l) const
    {
        for (float& x : l)
            x = x < 0.f ? 0.f : x;
        return l;
    }
};
template <Uint32 dim>
using Val = Vector<float, dim>;
typedef Proxies::VelocityVec Vel;

template <Uint32 dim>
Val<dim> through(const Matrix<float, dim, 6>& J, const Vel& v)
{
    Val<dim> r;
    for (Uint32 i = 0; i < dim; ++i)
    {
        r[i] = 0.f;
        for (Uint32 k = 0; k < 6; ++k)
            r[i] += J(i, k) * v[k];
    }
    return r;
}
inline Vel weighted(const InvMasses& m, const Vel& P)
{
    return Vel{m.m0 * P[0], m.m0 * P[1], m.I0 * P[2], m.m1 * P[3], m.m1 * P[4], m.I1 * P[5]};
}
template <Uint32 dim>
Vel spread(const Matrix<float, dim, 6>& J, const Val<dim>& l)
{
    Vel P;
    for (Uint32 k = 0; k < 6; ++k)
    {
        P[k] = 0.f;
        for (Uint32 i = 0; i < dim; ++i)
            P[k] += J(i, k) * l[i];
    }
    return P;
}
} // namespace laws
