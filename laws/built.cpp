#include "any.hpp"

namespace laws
{
inline float along(Vec2 a, Vec2 b) { return a[0] * b[0] + a[1] * b[1]; }
// two bodies as a new constraint sees them, and as its solver sees them next
struct Two
{
    Proxies now;
    Two(Body& a, Body& b, const Pair& p)
    {
        a.position_ = Position{Vec2{p.x0, p.y0}, p.t0, p.c0};
        b.position_ = Position{Vec2{p.x1, p.y1}, p.t1, p.c1};
        now         = Proxies{SolverProxy{&a.position_, &a.velocity_}, SolverProxy{&b.position_, &b.velocity_}, p.m};
    }
};
// ---- a new constraint is satisfied where it was made
inline void law_built__hinge(Body& a, Body& b, Pair p, Vec2 at)
{
    Two t{a, b, p};
    HingeConstraintFunction f{Bodies{&a, &b}, at};
    equal(f.eval(t.now), Vec2{0.f, 0.f});
    equal(t.now[0].toWorldSpace() * f.localSpaceSharedPoint_[0], at);
}
inline void law_built__rotation(Body& a, Body& b, Pair p)
{
    Two t{a, b, p};
    RotationConstraintFunction f{Bodies{&a, &b}};
    equal(f.eval(t.now)[0], 0.f);
}
inline void law_built__weld(Body& a, Body& b, Pair p)
{
    Two t{a, b, p};
    WeldConstraint c{Bodies{&a, &b}};
    equal(c.f.eval(t.now), Vec3{0.f, 0.f, 0.f});
}
inline void law_built__distance(Body& a, Body& b, Pair p, Vec2 u, Vec2 v)
{
    Two t{a, b, p};
    DistanceConstraintFunction f{Bodies{&a, &b}, std::array<Vec2, 2>{u, v}};
    equal(f.eval(t.now)[0], along(u - v, u - v));
}
inline void law_built__rod(Body& a, Body& b, Pair p, Vec2 u, Vec2 v)
{
    Two t{a, b, p};
    given(along(u - v, u - v) > 0.f);
    DistanceConstraint c{Bodies{&a, &b}, std::array<Vec2, 2>{u, v}};
    equal(c.solver.L_.value()[0], c.f.eval(t.now)[0]);
    equal(c.solver.U_.value()[0], c.f.eval(t.now)[0]);
}
inline void law_built__rope(Body& a, Body& b, Pair p, Vec2 u, Vec2 v, float d)
{
    given(d > 0.f);
    Two t{a, b, p};
    DistanceConstraint c{Bodies{&a, &b}, std::array<Vec2, 2>{u, v}, std::nullopt, d};
    holds(!c.solver.L_.has_value());
    holds(c.solver.U_.has_value());
    equal(c.solver.U_.value()[0], d * d);
    DistanceConstraint e{Bodies{&a, &b}, std::array<Vec2, 2>{u, v}, d, std::nullopt};
    holds(!e.solver.U_.has_value());
    equal(e.solver.L_.value()[0], d * d);
}
// ---- each body takes part with its own share of inverse mass
inline void law_share__bodies(Body& a, Body& b)
{
    given(&a != &b);
    given(a.mass() > 0.f);
    given(a.inertia() > 0.f);
    given(b.mass() > 0.f);
    given(b.inertia() > 0.f);
    Bodies k{&a, &b};
    equal(k.invMasses_.m0 * a.mass(), a.dominance());
    equal(k.invMasses_.I0 * a.inertia(), a.dominance());
    equal(k.invMasses_.m1 * b.mass(), b.dominance());
    equal(k.invMasses_.I1 * b.inertia(), b.dominance());
    holds(k.isBodyStructural(&a) == (a.dominance() == 0.f));
    holds(k.isBodyStructural(&b) == (b.dominance() == 0.f));
}
inline void law_share__chosen(Body& a, Body& b, Vec2 d)
{
    given(a.mass() > 0.f);
    given(a.inertia() > 0.f);
    given(b.mass() > 0.f);
    given(b.inertia() > 0.f);
    Bodies k{{&a, &b}, d};
    equal(k.invMasses_.m0 * a.mass(), d[0]);
    equal(k.invMasses_.I0 * a.inertia(), d[0]);
    equal(k.invMasses_.m1 * b.mass(), d[1]);
    equal(k.invMasses_.I1 * b.inertia(), d[1]);
}
inline void law_share__single(Body& a)
{
    given(a.mass() > 0.f);
    given(a.inertia() > 0.f);
    Bodies k = Bodies::singleBody(&a);
    equal(k.invMasses_.m0 * a.mass(), 1.f);
    equal(k.invMasses_.I0 * a.inertia(), 1.f);
    holds(k.size() == 1);
}
inline void law_share__same(Body& a, Body& b, Body& c)
{
    given(&a != &b);
    given(&a != &c);
    given(&b != &c);
    Bodies k{&a, &b}, l{&a, &b}, m{&b, &a}, n{&a, &c};
    holds(k == l);
    holds(!(k != l));
    holds(k != m);
    holds(k != n);
    holds(!(k == n));
    holds(k.size() == 2);
    holds(k[0] == &a);
    holds(k[1] == &b);
}
inline void law_share__proxies(Body& a, Body& b, Pair p)
{
    Position x[2] = {Position{Vec2{p.x0, p.y0}, p.t0, p.c0}, Position{Vec2{p.x1, p.y1}, p.t1, p.c1}};
    Velocity v[2] = {Velocity{p.v0, p.w0}, Velocity{p.v1, p.w1}};
    given(&a != &b);
    given(a.mass() > 0.f);
    given(a.inertia() > 0.f);
    given(b.mass() > 0.f);
    given(b.inertia() > 0.f);
    Bodies k{&a, &b};
    a.proxyIndex = 1;
    b.proxyIndex = 0;
    k.startSolve(x, v);
    equal(k.getProxies()[0].position(), Vec2{p.x1, p.y1});
    equal(k.getProxies()[1].velocity(), p.v0);
    equal(k.getProxies().invMasses().m0, k.invMasses_.m0);
    equal(k.getProxies().invMasses().I0, k.invMasses_.I0);
    equal(k.getProxies().invMasses().m1, k.invMasses_.m1);
    equal(k.getProxies().invMasses().I1, k.invMasses_.I1);
    k.endSolve();
    holds(!k.hasProxies());
}
// ---- several functions in one stand one below the other
template <class F, class G>
void law_stacked__rows(Pair a, F f, G g, Vector<float, 3> l, float dt)
{
    Solve s{a};
    ConstraintFunctions<F, G> h{f, g};
    auto C = h.eval(s.proxies);
    auto b = h.bias(s.proxies);
    auto J = h.jacobian(s.proxies);
    auto c = h.clampLambda(l, dt);
    auto p = h.clampPositionLambda(l);
    typename F::Value lf, pf;
    typename G::Value lg, pg;
    for (Uint32 i = 0; i < F::dimension; ++i)
        lf[i] = l[i];
    for (Uint32 i = 0; i < G::dimension; ++i)
        lg[i] = l[F::dimension + i];
    pf = f.clampPositionLambda(lf);
    pg = g.clampPositionLambda(lg);
    lf = f.clampLambda(lf, dt);
    lg = g.clampLambda(lg, dt);
    for (Uint32 i = 0; i < F::dimension; ++i)
    {
        equal(C[i], f.eval(s.proxies)[i]);
        equal(b[i], f.bias(s.proxies)[i]);
        equal(c[i], lf[i]);
        equal(p[i], pf[i]);
        for (Uint32 k = 0; k < 6; ++k)
            equal(J(i, k), f.jacobian(s.proxies)(i, k));
    }
    for (Uint32 i = 0; i < G::dimension; ++i)
    {
        Uint32 j = F::dimension + i;
        equal(C[j], g.eval(s.proxies)[i]);
        equal(b[j], g.bias(s.proxies)[i]);
        equal(c[j], lg[i]);
        equal(p[j], pg[i]);
        for (Uint32 k = 0; k < 6; ++k)
            equal(J(j, k), g.jacobian(s.proxies)(i, k));
    }
}
inline void law_inequality__pushes(Vec2 l, float dt)
{
    InequalityConstraintFunctionBase<2, 2> f;
    auto c = f.clampLambda(l, dt), p = f.clampPositionLambda(l);
    for (int i = 0; i < 2; ++i)
    {
        equal(c[i], l[i] < 0.f ? 0.f : l[i]);
        equal(p[i], l[i] < 0.f ? 0.f : l[i]);
    }
}
inline void law_equality__free(Vec2 l, float dt)
{
    EqualityConstraintFunctionBase<2, 2> f;
    equal(f.clampLambda(l, dt), l);
    equal(f.clampPositionLambda(l), l);
}
inline void use_built(const Pair& a)
{
    law_stacked__rows(a, Bounded<1>{}, Bounded<2>{}, Vec3{}, 1.f);
    law_stacked__rows(a, Bounded<2>{}, Bounded<1>{}, Vec3{}, 1.f);
}
} // namespace laws
