#include "laws.hpp"

namespace laws
{
inline float along(Vec2 a, Vec2 b) { return a[0] * b[0] + a[1] * b[1]; }
inline float turned(Vec2 a, Vec2 b) { return a[0] * b[1] - a[1] * b[0]; }
inline void indexed(World& w, Collider* c) {}

// ---- poses
inline void law_pose__round_trip(Vec2 at, float angle, Vec2 c, Vec2 p)
{
    Position x{at, angle, c};
    equal(x.toLocalSpace() * (x.toWorldSpace() * p), p);
    equal(x.toWorldSpace() * (x.toLocalSpace() * p), p);
}
inline void law_pose__given(Vec2 at, float angle, Vec2 c)
{
    Position x{at, angle, c};
    equal(x.position(), at);
    equal(x.orientation(), angle);
    equal(x.localCentroid(), c);
    equal(x.centroid(), x.toWorldSpace() * c);
}
inline void law_pose__advances(Vec2 at, float angle, Vec2 c, Vec2 d, float turn)
{
    Position x{at, angle, c}, y{at, angle, c};
    y.advance(d, turn);
    equal(y.position(), at + d);
    equal(y.orientation(), angle + turn);
    equal(y.localCentroid(), c);
    equal(y.centroid(), x.centroid() + d);
}
inline void law_pose__rigid(Vec2 at, float angle, Vec2 c, Vec2 p, Vec2 q)
{
    Position  x{at, angle, c};
    Transform T = x.toWorldSpace();
    Vec2 u = T * p - T * q;
    equal(along(u, u), along(p - q, p - q));
}
inline void law_pose__body(Body& b, Vec2 at, float angle, Vec2 c, Vec2 p)
{
    b.position_ = Position{at, angle, c};
    equal(b.toWorldSpace() * p, b.position_.toWorldSpace() * p);
    equal(b.toLocalSpace() * (b.toWorldSpace() * p), p);
    equal(b.centroid(), b.toWorldSpace() * b.localCentroid());
}
// ---- impulses
inline void law_impulse__momentum(Body& b, Vec2 P, Vec2 r)
{
    given(b.mass() > 0.f);
    given(b.inertia() > 0.f);
    Vec2  v = b.velocity();
    float w = b.angularVelocity();
    b.applyImpulse(P, r);
    equal((b.velocity() - v) * b.mass(), P);
    equal((b.angularVelocity() - w) * b.inertia(), turned(r, P));
    holds(!b.isAsleep());
}
inline void law_impulse__force(Body& a, Vec2 F, Vec2 r, float dt)
{
    given(a.mass() > 0.f);
    given(a.inertia() > 0.f);
    Vec2  v = a.velocity();
    float w = a.angularVelocity();
    a.applyForce(F, dt, r);
    equal((a.velocity() - v) * a.mass(), F * dt);
    equal((a.angularVelocity() - w) * a.inertia(), turned(r, F) * dt);
}
inline void law_impulse__through_centroid(Body& a, Vec2 P)
{
    float w = a.angularVelocity();
    a.applyImpulse(P);
    equal(a.angularVelocity(), w);
}
inline void law_impulse__pose(Body& a, Vec2 P, Vec2 r, Vec2 p)
{
    Vec2 q = a.toWorldSpace() * p;
    a.applyImpulse(P, r);
    equal(a.toWorldSpace() * p, q);
}
inline void law_velocity__set(Body& a, Vec2 v, float w)
{
    a.setVelocity(v);
    a.setAngularVelocity(w);
    equal(a.velocity(), v);
    equal(a.angularVelocity(), w);
    holds(!a.isAsleep());
}
// ---- masses
inline void law_inverse_mass__body(Body& a)
{
    given(a.mass() > 0.f);
    given(a.inertia() > 0.f);
    equal(a.invMass() * a.mass(), 1.f);
    equal(a.invInertia() * a.inertia(), 1.f);
}
inline void law_inverse_mass__class(float m, float I)
{
    given(m > 0.f);
    given(I > 0.f);
    Mass x{m, I};
    equal(x.mass(), m);
    equal(x.inertia(), I);
    equal(x.invMass() * m, 1.f);
    equal(x.invInertia() * I, 1.f);
}
inline void law_mass__combined(MassProperties a, MassProperties b)
{
    given(a.m > 0.f);
    given(b.m > 0.f);
    MassProperties c = a + b;
    equal(c.m, a.m + b.m);
    equal(c.centroid * c.m, a.centroid * a.m + b.centroid * b.m);
    // about any point the inertias add
    equal(c.I + c.m * along(c.centroid, c.centroid), a.I + a.m * along(a.centroid, a.centroid) + b.I + b.m * along(b.centroid, b.centroid));
}
inline void law_mass__nothing(MassProperties a)
{
    given(a.m > 0.f);
    MassProperties c = MassProperties{} + a;
    equal(c.m, a.m);
    equal(c.I, a.I);
    equal(c.centroid, a.centroid);
    MassProperties d = MassProperties{} + MassProperties{};
    equal(d.m, 0.f);
    equal(d.I, 0.f);
    equal(d.centroid, Vec2{0.f, 0.f});
}
inline void law_mass__density(Vec2 a, Vec2 b, float h, float density)
{
    given(density > 0.f);
    Polygon p = Polygon::box(Vec2{2.f, 3.f}, a);
    MassProperties m{p, density};
    equal(m.m, 6.f * density);
    equal(m.centroid, a);
    equal(m.I, density * 6.f * (4.f + 9.f) / 12.f);
}
inline void law_mass__several(float d, float e, Vec2 p, Vec2 q)
{
    given(d > 0.f);
    given(e > 0.f);
    ColliderDescriptor x{Polygon::box(Vec2{2.f, 3.f}, p)}, y{Polygon::box(Vec2{1.f, 2.f}, q)};
    x.material.density = d;
    y.material.density = e;
    Colliders cs;
    Collider* c = cs.add(x, nullptr);
    equal(cs.properties().m, 6.f * d);
    equal(cs.properties().centroid, p);
    cs.add(y, nullptr);
    equal(cs.properties().m, 6.f * d + 2.f * e);
    equal(cs.properties().centroid * cs.properties().m, p * (6.f * d) + q * (2.f * e));
    cs.remove(c);
    equal(cs.properties().m, 2.f * e);
    equal(cs.properties().centroid, q);
    equal(cs.properties().I, 2.f * e * (1.f + 4.f) / 12.f);
}
inline void law_mass__removed(float d, float e, Vec2 p, Vec2 q)
{
    given(d > 0.f);
    given(e > 0.f);
    ColliderDescriptor x{Polygon::box(Vec2{2.f, 3.f}, p)}, y{Polygon::box(Vec2{1.f, 2.f}, q)};
    x.material.density = d;
    y.material.density = e;
    // the last one
    Colliders cs;
    Collider* c = cs.add(x, nullptr);
    cs.remove(c);
    equal(cs.properties().m, 0.f);
    equal(cs.properties().I, 0.f);
    holds(cs.begin() == cs.end());
    // and then another one
    Collider* k = cs.add(y, nullptr);
    equal(cs.properties().m, 2.f * e);
    equal(cs.properties().centroid, q);
    equal(cs.properties().I, 2.f * e * (1.f + 4.f) / 12.f);
    // the one added last, of two
    Collider* l = cs.add(x, nullptr);
    holds(l != k);
    cs.remove(l);
    equal(cs.properties().m, 2.f * e);
    equal(cs.properties().centroid, q);
    equal(cs.properties().I, 2.f * e * (1.f + 4.f) / 12.f);
}
// the middle one of three
inline void law_mass__middle(Vec2 p, Vec2 q, Vec2 r)
{
    Colliders cs;
    cs.add(ColliderDescriptor{Polygon::box(Vec2{2.f, 3.f}, p)}, nullptr);
    Collider* c = cs.add(ColliderDescriptor{Polygon::box(Vec2{1.f, 2.f}, q)}, nullptr);
    cs.add(ColliderDescriptor{Polygon::box(Vec2{2.f, 1.f}, r)}, nullptr);
    cs.remove(c);
    equal(cs.properties().m, 8.f);
    equal(cs.properties().centroid * 8.f, p * 6.f + r * 2.f);
}
// a body without its last part, and with another one
inline void law_parts__replaced(Body& b, Vec2 at, Vec2 q)
{
    b.position_  = Position{at, 0.f, Vec2{0.f, 0.f}};
    b.colliders_ = Colliders{};
    Collider* k = b.addCollider(ColliderDescriptor{Polygon::box(Vec2{2.f, 3.f}, Vec2{1.f, 0.f})});
    b.removeCollider(k);
    b.addCollider(ColliderDescriptor{Polygon::box(Vec2{1.f, 2.f}, q)});
    equal(b.mass(), 2.f);
    equal(b.centroid(), at + q);
    equal(b.inertia(), 2.f * (1.f + 4.f) / 12.f);
}
// ---- shapes follow the pose
inline void law_shape__follows(Collider c, Transform T, Vec2 a, Vec2 b, Vec2 d)
{
    c.local_       = std::vector<Vec2, Collider::Alloc>{a, b, d};
    c.transformed_ = std::vector<Vec2, Collider::Alloc>{d, d, d};
    c.update(T);
    auto it = c.begin();
    Vec2 x = *it++;
    Vec2 y = *it++;
    Vec2 z = *it++;
    equal(x, T * a);
    equal(y, T * b);
    equal(z, T * d);
    holds(it == c.end());
    BoundingBox o = c.boundingBox();
    for (int k = 0; k < 2; ++k)
    {
        holds(o.min()[k] <= x[k] && o.min()[k] <= y[k] && o.min()[k] <= z[k]);
        holds(o.max()[k] >= x[k] && o.max()[k] >= y[k] && o.max()[k] >= z[k]);
        holds(o.min()[k] == x[k] || o.min()[k] == y[k] || o.min()[k] == z[k]);
        holds(o.max()[k] == x[k] || o.max()[k] == y[k] || o.max()[k] == z[k]);
    }
}
// ---- a new or a lost part changes no point's velocity
inline void law_parts__added(Body& b, Vec2 at, Vec2 q, Vec2 p)
{
    b.position_  = Position{at, 0.f, Vec2{0.f, 0.f}};
    b.colliders_ = Colliders{};
    b.addCollider(ColliderDescriptor{Polygon::box(Vec2{2.f, 3.f}, Vec2{1.f, 0.f})});
    Vec2  v = b.velocity(), c = b.centroid();
    float w = b.angularVelocity();
    b.addCollider(ColliderDescriptor{Polygon::box(Vec2{1.f, 2.f}, q)});
    equal(b.angularVelocity(), w);
    equal(b.mass(), 8.f);
    equal(b.centroid() * 8.f, at * 8.f + Vec2{6.f, 0.f} + q * 2.f);
    equal(b.velocity() + w * perp(p - b.centroid()), v + w * perp(p - c));
}
inline void law_parts__removed(Body& b, Vec2 at, Vec2 q, Vec2 p)
{
    b.position_  = Position{at, 0.f, Vec2{0.f, 0.f}};
    b.colliders_ = Colliders{};
    b.addCollider(ColliderDescriptor{Polygon::box(Vec2{2.f, 3.f}, Vec2{1.f, 0.f})});
    Collider* k = b.addCollider(ColliderDescriptor{Polygon::box(Vec2{1.f, 2.f}, q)});
    Vec2  v = b.velocity(), c = b.centroid();
    float w = b.angularVelocity();
    b.removeCollider(k);
    equal(b.angularVelocity(), w);
    equal(b.mass(), 6.f);
    equal(b.centroid(), at + Vec2{1.f, 0.f});
    equal(b.velocity() + w * perp(p - b.centroid()), v + w * perp(p - c));
}
// ---- a new body is where it was asked for, at rest
inline void law_new_body__descriptor(Vec2 at, float angle, float dominance)
{
    BodyDescriptor d{at, angle, dominance};
    Body b{d};
    equal(b.position(), at);
    equal(b.orientation(), angle);
    equal(b.dominance(), dominance);
    equal(b.velocity(), Vec2{0.f, 0.f});
    equal(b.angularVelocity(), 0.f);
    holds(!b.isAsleep());
    holds(b.isStructural() == (dominance == 0.f));
}
} // namespace laws
