#include "pair.hpp"
#include "any.hpp"

namespace laws
{
typedef std::optional<float>     Opt;
typedef LimitsSolver<Any<1>>     L1;
typedef Vector<float, 1>         V1;

inline void movable(const Bodies& b)
{
    given(b[0] != b[1]);
    given(!b.isBodyStructural(b[0]));
}

// ---- what has no mass is refused
inline void law_mass__positive(float m, float I)
{
    rejected(!(m > 0.f) || !(I > 0.f), [&] { Mass{m, I}; });
}
inline void law_mass__density(GeometricProperties p, float density)
{
    given(p.area > 0.f);
    given(p.momentOfArea > 0.f);
    rejected(!(density > 0.f), [&] { Mass{p, density}; });
}
// ---- limits that cross are refused
inline void law_limits__crossed(L1 e, float lo, float up)
{
    e.setUpperLimit(std::nullopt);
    e.setLowerLimit(V1{lo});
    rejected(lo > up, [&] { e.setUpperLimit(V1{up}); });
}
inline void law_limits__crossed_below(L1 e, float lo, float up)
{
    e.setLowerLimit(std::nullopt);
    e.setUpperLimit(V1{up});
    rejected(lo > up, [&] { e.setLowerLimit(V1{lo}); });
}
inline void law_limits__single(L1 e, float lo)
{
    e.setLowerLimit(std::nullopt);
    rejected(false, [&] { e.setUpperLimit(V1{lo}); });
    e.setUpperLimit(std::nullopt);
    rejected(false, [&] { e.setLowerLimit(V1{lo}); });
}
// ---- a distance constraint needs a positive limit, and its limits in order
inline void law_distance__both(const Bodies& b, std::array<Vec2, 2> at, float lo, float up)
{
    movable(b);
    rejected(!(lo > 0.f) || !(up > 0.f) || lo * lo > up * up, [&] { DistanceConstraint{b, at, Opt{lo}, Opt{up}, true}; });
}
inline void law_distance__lower(const Bodies& b, std::array<Vec2, 2> at, float lo)
{
    movable(b);
    rejected(!(lo > 0.f), [&] { DistanceConstraint{b, at, Opt{lo}, Opt{}, true}; });
}
inline void law_distance__upper(const Bodies& b, std::array<Vec2, 2> at, float up)
{
    movable(b);
    rejected(!(up > 0.f), [&] { DistanceConstraint{b, at, Opt{}, Opt{up}, true}; });
}
inline void law_distance__none(const Bodies& b, std::array<Vec2, 2> at)
{
    movable(b);
    rejected(true, [&] { DistanceConstraint{b, at, Opt{}, Opt{}, true}; });
}
// ---- solvers of matrices that cannot be solved
inline void law_solver__singular(Matrix<float, 2, 2> m, Vec2 c)
{
    rejected(m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0) == 0.f, [&] { solve(m, c); });
}
inline void law_solver__singular_one(Matrix<float, 1, 1> m, V1 c)
{
    rejected(m(0, 0) == 0.f, [&] { solve(m, c); });
}
inline void law_solver__invert(Matrix<float, 2, 2> m)
{
    rejected(m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0) == 0.f, [&] { invert(m); });
}
template <Uint32 n>
void law_solver__valid(Solver<float, n> s, Vector<float, n> c)
{
    rejected(!s.isValid(), [&] { s.solve(c); });
}
// ---- a constraint without effect on its bodies is refused
inline void law_equality__singular(Pair a, Any<1> f, EqualitySolver<Any<1>> e)
{
    Solve s{a};
    Vel   P = weighted(a.m, spread<1>(f.J, V1{1.f}));
    Matrix<float, 1, 1> K{through<1>(f.J, P)[0] + e.damping()[0]};
    rejected(!Solver<float, 1>{K}.isValid(), [&] { e.initSolve(s.proxies, f); });
}
// ---- colliders have a density and a surface
inline void law_equality__singular_pair(Pair a, Any<2> f, EqualitySolver<Any<2>> e)
{
    Solve s{a};
    Vel   P = weighted(a.m, spread<2>(f.J, Vec2{1.f, 0.f}));
    Vel   Q = weighted(a.m, spread<2>(f.J, Vec2{0.f, 1.f}));
    Vec2  k = through<2>(f.J, P);
    Vec2  l = through<2>(f.J, Q);
    rejected((k[0] + e.damping()[0]) * (l[1] + e.damping()[1]) == k[1] * l[0], [&] { e.initSolve(s.proxies, f); });
}
inline void law_collider__density(Vec2 a, Vec2 b, Vec2 c, float density)
{
    std::array<Vec2, 3> at{a, b, c};
    rejected(!(density > 0.f) || GeometricProperties{at}.isDegenerate, [&] { MassProperties{at, density}; });
}
inline void law_polygon__vertices(Vec2 a, Vec2 b, Vec2 c)
{
    rejected(true, [&] { Polygon{a, b}; });
    rejected(true, [&] { Polygon{a}; });
    rejected(false, [&] { Polygon{a, b, c}; });
}
inline void law_polygon__range(Vec2 a, Vec2 b, Vec2 c)
{
    std::array<Vec2, 2> two{a, b};
    std::array<Vec2, 3> three{a, b, c};
    rejected(true, [&] { Polygon{two.begin(), two.end()}; });
    rejected(false, [&] { Polygon{three.begin(), three.end()}; });
}
// ---- constraints need two bodies, one of them movable
inline void law_constraint__bodies(Body& x, Body& y, float d0, float d1)
{
    given(&x != &y);
    rejected(d0 * x.invMass() == 0.f && d1 * y.invMass() == 0.f, [&] { HingeConstraint{Bodies{{&x, &y}, Vec2{d0, d1}}, Vec2{0, 0}}; });
}
inline void law_constraint__same_body(Body& x, float d)
{
    rejected(d * x.invMass() == 0.f, [&] { HingeConstraint{Bodies{{&x, &x}, Vec2{d, d}}, Vec2{0, 0}}; });
}
inline void law_constraint__no_body(Body& x, bool disables)
{
    struct C : HingeConstraint { using HingeConstraint::HingeConstraint; };
    rejected(true, [&] { HingeConstraint{Bodies{&x, nullptr}, Vec2{0, 0}}; });
    rejected(true, [&] { HingeConstraint{Bodies{nullptr, &x}, Vec2{0, 0}}; });
}
inline void law_bodies__foreign(const Bodies& b, const Body& x)
{
    rejected(&x != b[0] && &x != b[1], [&] { b.isBodyStructural(&x); });
}
inline void law_bodies__unsolved(Bodies& b)
{
    rejected(!b.hasProxies(), [&] { b.getProxies(); });
}
inline void law_bodies__index(Body& x, Body& y, Position* p, Velocity* v)
{
    given(&x != &y);
    Bodies b{{&x, &y}, Vec2{1, 1}};
    rejected(x.proxyIndex == Body::NO_INDEX || y.proxyIndex == Body::NO_INDEX, [&] { b.startSolve(p, v); });
}
inline void law_bodies__null(Body& x)
{
    rejected(true, [&] { Bodies{{&x, nullptr}, Vec2{1, 1}}; });
    rejected(true, [&] { Bodies{{nullptr, &x}, Vec2{1, 1}}; });
}
inline void law_bodies__count(Body& x)
{
    rejected(true, [&] { Bodies{{&x}, Vec2{1, 1}}; });
    rejected(true, [&] { Bodies{{&x, &x, &x}, Vec2{1, 1}}; });
    rejected(false, [&] { Bodies{{&x, &x}, Vec2{1, 1}}; });
}
// ---- a furthest vertex needs a direction
inline void law_furthest__direction(const Polygon& p, Vec2 d)
{
    rejected(d[0] == 0.f && d[1] == 0.f, [&] { furthestVertexInDirection(p, d); });
}
inline void law_initializer__size(float a)
{
    rejected(true, [&] { Vec2{a}; });
    rejected(true, [&] { Matrix<float, 2, 2>{a, a, a}; });
    rejected(true, [&] { Vec2{a, a, a}; });
    rejected(false, [&] { Vec2{a, a}; });
    rejected(false, [&] { Matrix<float, 2, 2>{a, a, a, a}; });
}

typedef Solver<float, 3> Sol3;
typedef Solver<float, 2> Sol2;
typedef Solver<float, 1> Sol1;
inline void instances()
{
#define ANY(T) (*(T*)0)
    law_solver__valid<3>(ANY(Sol3), ANY(Vec3));
    law_solver__valid<2>(ANY(Sol2), ANY(Vec2));
    law_solver__valid<1>(ANY(Sol1), ANY(V1));
}
} // namespace laws
