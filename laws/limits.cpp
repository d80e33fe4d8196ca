#include "laws.hpp"
#include "pair.hpp"
#include "any.hpp"

namespace laws
{
typedef LimitsSolver<Any<1>>     L1;
typedef LimitsSolver<Bounded<1>> LB;
typedef Vector<float, 1>         V1;

inline bool outside(bool hasL, float L, bool hasU, float U, float C)
{
    return (hasL && C <= L) || (hasU && C >= U);
}

// ---- active exactly when an error must be corrected
inline void law_active__one_sided(Pair a, Any<1> f, L1 e, float L)
{
    Solve s{a};
    e.setUpperLimit(std::nullopt);
    e.setLowerLimit(V1{L});
    holds(e.isActive(s.proxies, f) == (f.C[0] <= L));
    e.setLowerLimit(std::nullopt);
    e.setUpperLimit(V1{L});
    holds(e.isActive(s.proxies, f) == (f.C[0] >= L));
}
inline void law_active__two_sided(Pair a, Any<1> f, L1 e, float L, float U)
{
    given(L <= U);
    Solve s{a};
    e.setUpperLimit(std::nullopt);
    e.setLowerLimit(V1{L});
    e.setUpperLimit(V1{U});
    holds(e.isActive(s.proxies, f) == (L == U || f.C[0] <= L || f.C[0] >= U));
}
inline void law_active__unlimited(Pair a, Any<1> f, L1 e)
{
    Solve s{a};
    e.setUpperLimit(std::nullopt);
    e.setLowerLimit(std::nullopt);
    holds(e.isActive(s.proxies, f));
}

// ---- between the limits nothing is touched
inline void law_inside__untouched(Pair a, Any<1> f, L1 e, float L, float U, float dt)
{
    given(L < U);
    given(L < f.C[0]);
    given(f.C[0] < U);
    given(dt != 0.f);
    Solve s{a};
    e.setUpperLimit(std::nullopt);
    e.setLowerLimit(V1{L});
    e.setUpperLimit(V1{U});
    Vel before = s.proxies.velocity();
    e.initSolve(s.proxies, f);
    e.warmstart(s.proxies, f, dt);
    e.solveVelocity(s.proxies, f, dt);
    e.solvePosition(s.proxies, f);
    Vel v = s.proxies.velocity();
    for (Uint32 k = 0; k < 6; ++k)
        equal(v[k], before[k]);
    equal(s.p0.position(), Vec2{a.x0, a.y0});
    equal(s.p1.position(), Vec2{a.x1, a.y1});
    equal(s.p0.orientation(), a.t0);
    equal(s.p1.orientation(), a.t1);
}

// ---- at a limit: push only away from it, never beyond what is needed
inline void law_lower__velocity(Pair a, Any<1> f, L1 e, float L, float dt)
{
    given(dt > 0.f);
    given(f.C[0] <= L);
    Solve s{a};
    e.setUpperLimit(std::nullopt);
    e.setLowerLimit(V1{L});
    Vel before = s.proxies.velocity();
    e.initSolve(s.proxies, f);
    e.solveVelocity(s.proxies, f, dt);
    V1 l = e.getAccumulatedLambda();
    atLeastZero(l[0]);
    Vel P = weighted(a.m, spread<1>(f.J, l));
    Vel v = s.proxies.velocity();
    for (Uint32 k = 0; k < 6; ++k)
        equal(v[k], before[k] + P[k]);
    // either no impulse, or the rate, bias and drift balance
    float Jv = through<1>(f.J, v)[0];
    if (e.damping()[0] == 0.f)
        equal(l[0] * ((Jv + f.b[0]) * dt + e.restitution()[0] * (f.C[0] - L)), 0.f);
}
inline void law_upper__velocity(Pair a, Any<1> f, L1 e, float U, float dt)
{
    given(dt > 0.f);
    given(f.C[0] >= U);
    Solve s{a};
    e.setLowerLimit(std::nullopt);
    e.setUpperLimit(V1{U});
    Vel before = s.proxies.velocity();
    e.initSolve(s.proxies, f);
    e.solveVelocity(s.proxies, f, dt);
    V1 l = e.getAccumulatedLambda();
    atLeastZero(l[0]);
    Vel P = weighted(a.m, spread<1>(f.J, l));
    Vel v = s.proxies.velocity();
    for (Uint32 k = 0; k < 6; ++k)
        equal(v[k], before[k] - P[k]);
    float Jv = through<1>(f.J, v)[0];
    if (e.damping()[0] == 0.f)
        equal(l[0] * ((Jv + f.b[0]) * dt + e.restitution()[0] * (f.C[0] - U)), 0.f);
}
inline void law_equal__velocity(Pair a, Any<1> f, L1 e, float L, float dt)
{
    given(dt > 0.f);
    Solve s{a};
    e.setUpperLimit(std::nullopt);
    e.setLowerLimit(V1{L});
    e.setUpperLimit(V1{L});
    e.initSolve(s.proxies, f);
    e.solveVelocity(s.proxies, f, dt);
    float Jv = through<1>(f.J, s.proxies.velocity())[0];
    equal((Jv + f.b[0] + e.damping()[0] * e.getAccumulatedLambda()[0]) * dt + e.restitution()[0] * (f.C[0] - L), 0.f);
}

// ---- positions: back to the limit that is passed, to first order
inline Vel moved(const Solve& s, const Pair& a)
{
    return Vel{s.p0.position()[0] - a.x0, s.p0.position()[1] - a.y0, s.p0.orientation() - a.t0,
               s.p1.position()[0] - a.x1, s.p1.position()[1] - a.y1, s.p1.orientation() - a.t1};
}
inline void law_position__lower(Pair a, Any<1> f, L1 e, float L)
{
    given(f.C[0] <= L);
    given(a.m.m0 >= 0.f);
    given(a.m.m1 >= 0.f);
    given(a.m.I0 >= 0.f);
    given(a.m.I1 >= 0.f);
    Solve s{a};
    given(a.m.m0 > 0.f);
    given(f.J[0] != 0.f);
    e.setUpperLimit(std::nullopt);
    e.setLowerLimit(V1{L});
    e.solvePosition(s.proxies, f);
    equal(through<1>(f.J, moved(s, a))[0], L - f.C[0]);
}
inline void law_position__upper(Pair a, Any<1> f, L1 e, float U)
{
    given(f.C[0] >= U);
    given(a.m.m0 >= 0.f);
    given(a.m.m1 >= 0.f);
    given(a.m.I0 >= 0.f);
    given(a.m.I1 >= 0.f);
    Solve s{a};
    given(a.m.m0 > 0.f);
    given(f.J[0] != 0.f);
    e.setLowerLimit(std::nullopt);
    e.setUpperLimit(V1{U});
    e.solvePosition(s.proxies, f);
    equal(through<1>(f.J, moved(s, a))[0], U - f.C[0]);
}
inline void law_position__equal(Pair a, Any<1> f, L1 e, float L)
{
    Solve s{a};
    e.setUpperLimit(std::nullopt);
    e.setLowerLimit(V1{L});
    e.setUpperLimit(V1{L});
    e.solvePosition(s.proxies, f);
    equal(through<1>(f.J, moved(s, a))[0], L - f.C[0]);
}

// ---- warm starting: only when the same limit acts again
inline void law_warm_start__same_limit(Pair a, Any<1> f, L1 e, float L, float dt)
{
    given(dt > 0.f);
    given(f.C[0] <= L);
    Solve s{a};
    e.setUpperLimit(std::nullopt);
    e.setLowerLimit(V1{L});
    e.initSolve(s.proxies, f);
    e.warmstart(s.proxies, f, dt);
    V1  first  = e.getAccumulatedLambda();
    Vel before = s.proxies.velocity();
    e.initSolve(s.proxies, f);
    e.warmstart(s.proxies, f, dt);
    equal(e.getAccumulatedLambda()[0], first[0]);
    Vel P = weighted(a.m, spread<1>(f.J, first));
    Vel v = s.proxies.velocity();
    for (Uint32 k = 0; k < 6; ++k)
        equal(v[k], before[k] + P[k]);
}
inline void law_warm_start__other_limit(Pair a, Any<1> f, Any<1> g, L1 e, float L, float U, float dt)
{
    given(dt > 0.f);
    given(L < U);
    given(f.C[0] <= L);
    given(g.C[0] >= U);
    Solve s{a};
    e.setUpperLimit(std::nullopt);
    e.setLowerLimit(V1{L});
    e.setUpperLimit(V1{U});
    e.initSolve(s.proxies, f);
    e.warmstart(s.proxies, f, dt);
    Vel before = s.proxies.velocity();
    e.initSolve(s.proxies, g);
    e.warmstart(s.proxies, g, dt);
    equal(e.getAccumulatedLambda()[0], 0.f);
    Vel v = s.proxies.velocity();
    for (Uint32 k = 0; k < 6; ++k)
        equal(v[k], before[k]);
}
inline void law_warm_start__back_to_lower(Pair a, Any<1> f, Any<1> g, L1 e, float L, float U, float dt)
{
    given(dt > 0.f);
    given(L < U);
    given(f.C[0] >= U);
    given(g.C[0] <= L);
    Solve s{a};
    e.setUpperLimit(std::nullopt);
    e.setLowerLimit(V1{L});
    e.setUpperLimit(V1{U});
    e.initSolve(s.proxies, f);
    e.warmstart(s.proxies, f, dt);
    Vel before = s.proxies.velocity();
    e.initSolve(s.proxies, g);
    e.warmstart(s.proxies, g, dt);
    equal(e.getAccumulatedLambda()[0], 0.f);
    Vel v = s.proxies.velocity();
    for (Uint32 k = 0; k < 6; ++k)
        equal(v[k], before[k]);
}
inline void law_warm_start__upper(Pair a, Any<1> f, L1 e, float U, float dt)
{
    given(dt > 0.f);
    given(f.C[0] >= U);
    Solve s{a};
    e.setLowerLimit(std::nullopt);
    e.setUpperLimit(V1{U});
    e.initSolve(s.proxies, f);
    e.warmstart(s.proxies, f, dt);
    V1  first  = e.getAccumulatedLambda();
    Vel before = s.proxies.velocity();
    e.initSolve(s.proxies, f);
    e.warmstart(s.proxies, f, dt);
    equal(e.getAccumulatedLambda()[0], first[0]);
    Vel P = weighted(a.m, spread<1>(f.J, first));
    Vel v = s.proxies.velocity();
    for (Uint32 k = 0; k < 6; ++k)
        equal(v[k], before[k] - P[k]);
}
} // namespace laws
