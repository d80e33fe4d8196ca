#include "laws.hpp"
#include "any.hpp"

namespace laws
{
// ---- an equality is met by one solve: rates, bias, drift and damping balance
template <Uint32 dim>
void law_equality_velocity__balance(Pair a, Any<dim> f, EqualitySolver<Any<dim>> e, float dt)
{
    given(dt != 0.f);
    Solve s{a};
    e.initSolve(s.proxies, f);
    e.solveVelocity(s.proxies, f, dt);
    auto Jv = through<dim>(f.J, s.proxies.velocity());
    auto l  = e.getAccumulatedLambda();
    for (Uint32 i = 0; i < dim; ++i)
        equal((Jv[i] + f.b[i] + e.damping()[i] * l[i]) * dt + e.restitution()[i] * f.C[i], 0.f);
}
// ---- what reaches the bodies is the accumulated impulse
template <class S, class F, Uint32 dim>
void law_applied_is_accumulated__solver(Pair a, F f, S e, float dt)
{
    given(dt != 0.f);
    Solve s{a};
    Vel   before = s.proxies.velocity();
    e.initSolve(s.proxies, f);
    e.solveVelocity(s.proxies, f, dt);
    Vel P = weighted(a.m, spread<dim>(f.J, e.getAccumulatedLambda()));
    Vel v = s.proxies.velocity();
    for (Uint32 k = 0; k < 6; ++k)
        equal(v[k], before[k] + P[k]);
}
// ---- warm starting applies the previous impulse once and keeps it
template <class S, class F, Uint32 dim>
void law_warm_start__solver(Pair a, F f, S e, float dt)
{
    given(dt != 0.f);
    Solve s{a};
    Vel   before   = s.proxies.velocity();
    auto  previous = e.getAccumulatedLambda();
    e.initSolve(s.proxies, f);
    for (Uint32 i = 0; i < dim; ++i)
    {
        equal(e.getAccumulatedLambda()[i], 0.f);
        equal(e.getPreviousLambda()[i], previous[i]);
    }
    e.warmstart(s.proxies, f, dt);
    Vel P = weighted(a.m, spread<dim>(f.J, e.getAccumulatedLambda()));
    Vel v = s.proxies.velocity();
    auto kept = f.clampLambda(previous, dt);
    for (Uint32 i = 0; i < dim; ++i)
        equal(e.getAccumulatedLambda()[i], kept[i]);
    for (Uint32 k = 0; k < 6; ++k)
        equal(v[k], before[k] + P[k]);
}
// ---- impulses are clamped as a total
template <Uint32 dim>
void law_total_clamped__equality(Pair a, Bounded<dim> f, EqualitySolver<Bounded<dim>> e, float dt)
{
    given(dt != 0.f);
    given(f.lo <= 0.f);
    given(0.f <= f.hi);
    Solve s{a};
    e.initSolve(s.proxies, f);
    e.solveVelocity(s.proxies, f, dt);
    for (float l : e.getAccumulatedLambda())
    {
        atLeastZero(l - f.lo);
        atLeastZero(f.hi - l);
    }
}
// ---- positions: the correction removes the error, to first order
template <Uint32 dim>
void law_equality_position__removes(Pair a, Any<dim> f, EqualitySolver<Any<dim>> e)
{
    Solve s{a};
    e.initSolve(s.proxies, f);
    e.solvePosition(s.proxies, f);
    Vel d{s.p0.position()[0] - a.x0, s.p0.position()[1] - a.y0, s.p0.orientation() - a.t0,
          s.p1.position()[0] - a.x1, s.p1.position()[1] - a.y1, s.p1.orientation() - a.t1};
    auto Jd = through<dim>(f.J, d);
    for (Uint32 i = 0; i < dim; ++i)
        equal(Jd[i], -f.C[i]);
}

inline void instances()
{
#define ANY(T) (*(T*)0)
    law_equality_velocity__balance<1>(ANY(Pair), ANY(Any<1>), ANY(EqualitySolver<Any<1>>), 1.f);
    law_equality_velocity__balance<2>(ANY(Pair), ANY(Any<2>), ANY(EqualitySolver<Any<2>>), 1.f);
    law_applied_is_accumulated__solver<EqualitySolver<Any<1>>, Any<1>, 1>(ANY(Pair), ANY(Any<1>), ANY(EqualitySolver<Any<1>>), 1.f);
    law_applied_is_accumulated__solver<EqualitySolver<Any<2>>, Any<2>, 2>(ANY(Pair), ANY(Any<2>), ANY(EqualitySolver<Any<2>>), 1.f);
    law_applied_is_accumulated__solver<EqualitySolver<Bounded<1>>, Bounded<1>, 1>(ANY(Pair), ANY(Bounded<1>), ANY(EqualitySolver<Bounded<1>>), 1.f);
    law_warm_start__solver<EqualitySolver<Any<2>>, Any<2>, 2>(ANY(Pair), ANY(Any<2>), ANY(EqualitySolver<Any<2>>), 1.f);
    law_warm_start__solver<EqualitySolver<Bounded<1>>, Bounded<1>, 1>(ANY(Pair), ANY(Bounded<1>), ANY(EqualitySolver<Bounded<1>>), 1.f);
    law_total_clamped__equality<1>(ANY(Pair), ANY(Bounded<1>), ANY(EqualitySolver<Bounded<1>>), 1.f);
    law_equality_position__removes<1>(ANY(Pair), ANY(Any<1>), ANY(EqualitySolver<Any<1>>));
    law_equality_position__removes<2>(ANY(Pair), ANY(Any<2>), ANY(EqualitySolver<Any<2>>));
    law_applied_is_accumulated__solver<InequalitySolver<Bounded<1>>, Bounded<1>, 1>(ANY(Pair), ANY(Bounded<1>), ANY(InequalitySolver<Bounded<1>>), 1.f);
    law_warm_start__solver<InequalitySolver<Bounded<1>>, Bounded<1>, 1>(ANY(Pair), ANY(Bounded<1>), ANY(InequalitySolver<Bounded<1>>), 1.f);
}
} // namespace laws
