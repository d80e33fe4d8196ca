#include "laws.hpp"
#include "any.hpp"

namespace laws
{
typedef CombinableProperty C;
inline float along(Vec2 a, Vec2 b) { return a[0] * b[0] + a[1] * b[1]; }
inline float turn(Vec2 a, Vec2 b, Vec2 c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }
template <C::Mode a, C::Mode b>
struct Modes
{
};
// the stronger of the two ways of combining decides, whoever asks for it
template <C::Mode a, C::Mode b>
void law_combined__value(float x, float y, Modes<a, b>)
{
    C r{C{x, a}, C{y, b}}, t{C{y, b}, C{x, a}};
    constexpr C::Mode m = a == C::maximum || b == C::maximum ? C::maximum : a == C::multiply || b == C::multiply ? C::multiply : a == C::minimum || b == C::minimum ? C::minimum : C::average;
    equal(r.value, t.value);
    holds(r.mode == m);
    if (m == C::average)
        equal(r.value, (x + y) / 2.f);
    else if (m == C::multiply)
        equal(r.value, x * y);
    else if (m == C::minimum)
        equal(r.value, x < y ? x : y);
    else
        equal(r.value, x < y ? y : x);
}
inline void law_combined__single(float x)
{
    C c{x, C::minimum};
    equal(c.value, x);
    holds(c.mode == C::minimum);
    holds(C{x}.mode == C::average);
}
// ---- materials of a contact
inline void law_contact_material__combined(Body& a, Body& b, Collider x, Collider y)
{
    x.body_ = &a;
    y.body_ = &b;
    x.boundingBox_ = BoundingBox{Vec2{0.f, 0.f}, Vec2{1.f, 1.f}};
    y.boundingBox_ = BoundingBox{Vec2{2.f, 2.f}, Vec2{3.f, 3.f}};
    ContactConstraint c{x, y};
    holds(c.bodies()[0] == &a);
    holds(c.bodies()[1] == &b);
    equal(c.frictionCoeff_, C{x.material_.friction, y.material_.friction}.value);
    equal(c.restitutionCoeff_, C{x.material_.bounciness, y.material_.bounciness}.value);
    equal(c.manifold_.minPen_, C{x.material_.penetration, y.material_.penetration}.value);
}
// ---- polygons
inline void law_polygon__box(Vec2 at, float w, float h)
{
    given(w > 0.f);
    given(h > 0.f);
    Polygon p = Polygon::box(Vec2{w, h}, at);
    equal(p.properties().area, w * h);
    equal(p.properties().centroid, at);
    Vec2 v[4];
    int n = 0;
    for (Vec2 x : p)
        v[n++] = x;
    holds(n == 4);
    for (int i = 0; i < 4; ++i)
    {
        holds(turn(v[i], v[(i + 1) % 4], v[(i + 2) % 4]) > 0.f);
        equal((v[i][0] - at[0]) * (v[i][0] - at[0]) * 4.f, w * w);
        equal((v[i][1] - at[1]) * (v[i][1] - at[1]) * 4.f, h * h);
    }
}
// vertices are put in counterclockwise order, and nothing else is done to them
inline void law_polygon__kept(Vec2 a, Vec2 b, Vec2 c)
{
    given(turn(a, b, c) > 0.f);
    Polygon p{a, b, c};
    auto it = p.begin();
    equal(*it++, a);
    equal(*it++, b);
    equal(*it++, c);
    holds(it == p.end());
    equal(p.properties().area * 2.f, turn(a, b, c));
}
inline void law_polygon__turned(Vec2 a, Vec2 b, Vec2 c)
{
    given(turn(a, b, c) < 0.f);
    Polygon p{a, b, c};
    auto it = p.begin();
    equal(*it++, c);
    equal(*it++, b);
    equal(*it++, a);
    holds(it == p.end());
    equal(p.properties().area * 2.f, turn(c, b, a));
    GeometricProperties g{Polygon{c, b, a}};
    equal(p.properties().centroid, g.centroid);
    equal(p.properties().momentOfArea, g.momentOfArea);
}
inline void law_collider__starts_as_given(ColliderDescriptor d, Body& b, Vec2 u, Vec2 v, Vec2 w)
{
    given(turn(u, v, w) > 0.f);
    d.polygon = Polygon{u, v, w};
    Collider c{d, &b, Collider::Alloc{}};
    holds(c.body() == &b);
    equal(c.material().density, d.material.density);
    equal(c.material().friction.value, d.material.friction.value);
    equal(c.local_[0], u);
    equal(c.local_[1], v);
    equal(c.local_[2], w);
    holds(c.local_.size() == 3);
    holds(c.transformed_.size() == 3);
}
// ---- fields
struct Pushed
{
    Vec2 v, r;
    float w, m;
    Pushed(Body& b, Collider& c, Vec2 x, Vec2 y, Vec2 z)
    {
        given(turn(x, y, z) > 0.f);
        given(c.material_.density > 0.f);
        given(b.mass() > 0.f);
        given(b.inertia() > 0.f);
        c.body_  = &b;
        c.local_ = std::vector<Vec2, Collider::Alloc>{x, y, z};
        v        = b.velocity();
        w        = b.angularVelocity();
        m        = turn(x, y, z) / 2.f * c.material_.density;
        r        = b.toWorldSpace() * ((x + y + z) / 3.f) - b.centroid();
    }
};
inline void law_field__gravity(Body& b, Collider c, Vec2 g, float dt, Vec2 x, Vec2 y, Vec2 z)
{
    Pushed p{b, c, x, y, z};
    Gravity f{g};
    f.apply(c, dt);
    equal((b.velocity() - p.v) * b.mass(), g * (p.m * dt));
    equal((b.angularVelocity() - p.w) * b.inertia(), (p.r[0] * g[1] - p.r[1] * g[0]) * (p.m * dt));
}
// a force on the whole body, shared by its parts as their masses
inline void law_field__linear(Body& b, Collider c, Vec2 g, float dt, Vec2 x, Vec2 y, Vec2 z)
{
    Pushed p{b, c, x, y, z};
    LinearField f{g};
    f.apply(c, dt);
    equal((b.velocity() - p.v) * b.mass() * b.mass(), g * (p.m * dt));
    equal((b.angularVelocity() - p.w) * b.inertia() * b.mass(), (p.r[0] * g[1] - p.r[1] * g[0]) * (p.m * dt));
}
inline void law_field__domain(Vec2 lo, Vec2 hi, Vec2 g)
{
    holds(Gravity{g}.domain().type == ForceField::global().type);
    LinearField f{g, ForceField::region(lo, hi)};
    holds(f.domain().type != ForceField::global().type);
    equal(f.domain().region.min(), lo);
    equal(f.domain().region.max(), hi);
}
inline void use_material()
{
    law_combined__value(1.f, 1.f, Modes<C::average, C::average>{});
    law_combined__value(1.f, 1.f, Modes<C::average, C::minimum>{});
    law_combined__value(1.f, 1.f, Modes<C::average, C::multiply>{});
    law_combined__value(1.f, 1.f, Modes<C::average, C::maximum>{});
    law_combined__value(1.f, 1.f, Modes<C::minimum, C::minimum>{});
    law_combined__value(1.f, 1.f, Modes<C::minimum, C::multiply>{});
    law_combined__value(1.f, 1.f, Modes<C::minimum, C::maximum>{});
    law_combined__value(1.f, 1.f, Modes<C::multiply, C::multiply>{});
    law_combined__value(1.f, 1.f, Modes<C::multiply, C::maximum>{});
    law_combined__value(1.f, 1.f, Modes<C::maximum, C::maximum>{});
}
} // namespace laws
