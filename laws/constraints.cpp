#include "laws.hpp"
#include "pair.hpp"

namespace laws
{
// --------------------------------------------------- rates of the error
template <class F>
void law_rate__pair(Pair a, F f)
{
    Solve s{a};
    gradient(f.eval(s.proxies), f.jacobian(s.proxies), a.x0, a.y0, a.t0, a.x1, a.y1, a.t1);
}

// ------------------------------- only equal and opposite impulses
template <class F, class Value>
void law_momentum__pair(Pair a, F f, Value lambda)
{
    Solve s{a};
    Proxies::Impulse P = ConstraintSolverBase<F>::impulse(f.jacobian(s.proxies), lambda);
    equal(P[0] + P[3], 0.f);
    equal(P[1] + P[4], 0.f);
    // about the origin; a joint that is apart acts at two places
    Vec2  c0    = s.p0.centroid();
    Vec2  c1    = s.p1.centroid();
    float gap   = 0.f;
    if constexpr (std::is_same_v<F, HingeConstraintFunction> || std::is_same_v<F, WeldConstraintFunction>)
    {
        auto C = f.eval(s.proxies);
        gap    = C[0] * lambda[1] - C[1] * lambda[0];
    }
    equal(c0[0] * P[1] - c0[1] * P[0] + P[2] + c1[0] * P[4] - c1[1] * P[3] + P[5], gap);
}

// -------------------------------------- impulses act through the masses
inline void law_impulse_effect__velocity(Pair a, Proxies::Impulse P)
{
    Solve s{a};
    s.proxies.applyImpulse(P);
    equal(s.v0.linear(), Vec2{a.v0[0] + a.m.m0 * P[0], a.v0[1] + a.m.m0 * P[1]});
    equal(s.v1.linear(), Vec2{a.v1[0] + a.m.m1 * P[3], a.v1[1] + a.m.m1 * P[4]});
    equal(s.v0.angular(), a.w0 + a.m.I0 * P[2]);
    equal(s.v1.angular(), a.w1 + a.m.I1 * P[5]);
    equal(s.p0.position(), Vec2{a.x0, a.y0});
    equal(s.p1.orientation(), a.t1);
}
inline void law_impulse_effect__position(Pair a, Proxies::State S)
{
    Solve s{a};
    s.proxies.applyPositionCorrection(S);
    equal(s.p0.position(), Vec2{a.x0 + a.m.m0 * S[0], a.y0 + a.m.m0 * S[1]});
    equal(s.p1.position(), Vec2{a.x1 + a.m.m1 * S[3], a.y1 + a.m.m1 * S[4]});
    equal(s.p0.orientation(), a.t0 + a.m.I0 * S[2]);
    equal(s.p1.orientation(), a.t1 + a.m.I1 * S[5]);
    equal(s.v0.linear(), a.v0);
    equal(s.v1.angular(), a.w1);
}
inline void law_impulse_effect__velocity_vector(Pair a)
{
    Solve s{a};
    auto  v = s.proxies.velocity();
    equal(v[0], a.v0[0]);
    equal(v[1], a.v0[1]);
    equal(v[2], a.w0);
    equal(v[3], a.v1[0]);
    equal(v[4], a.v1[1]);
    equal(v[5], a.w1);
    auto M = s.proxies.inverseMass();
    auto m = s.proxies.invMassVec();
    for (Uint32 r = 0; r < 6; ++r)
        for (Uint32 c = 0; c < 6; ++c)
            equal(M(r, c), r == c ? m[r] : 0.f);
    equal(m[0], a.m.m0);
    equal(m[1], a.m.m0);
    equal(m[2], a.m.I0);
    equal(m[3], a.m.m1);
    equal(m[4], a.m.m1);
    equal(m[5], a.m.I1);
}

inline void instances()
{
    law_rate__pair<HingeConstraintFunction>(*(Pair*)0, *(HingeConstraintFunction*)0);
    law_rate__pair<RotationConstraintFunction>(*(Pair*)0, *(RotationConstraintFunction*)0);
    law_rate__pair<DistanceConstraintFunction>(*(Pair*)0, *(DistanceConstraintFunction*)0);
    law_rate__pair<WeldConstraintFunction>(*(Pair*)0, *(WeldConstraintFunction*)0);
    law_momentum__pair<HingeConstraintFunction>(*(Pair*)0, *(HingeConstraintFunction*)0, HingeConstraintFunction::Value{});
    law_momentum__pair<RotationConstraintFunction>(*(Pair*)0, *(RotationConstraintFunction*)0, RotationConstraintFunction::Value{});
    law_momentum__pair<DistanceConstraintFunction>(*(Pair*)0, *(DistanceConstraintFunction*)0, DistanceConstraintFunction::Value{});
    law_momentum__pair<WeldConstraintFunction>(*(Pair*)0, *(WeldConstraintFunction*)0, WeldConstraintFunction::Value{});
}
} // namespace laws
