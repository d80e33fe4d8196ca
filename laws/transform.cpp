#include "laws.hpp"

namespace laws
{
// arbitrary poses
struct A
{
    float t; Vec2 o;
    Rotation    r() const { return Rotation{t}; }
    Translation l() const { return Translation{o}; }
    Transform   p() const { return Transform{Rotation{t}, Translation{o}}; }
};

Vec2 turned(float t, Vec2 v)
{
    return Vec2{std::cos(t) * v[0] - std::sin(t) * v[1], std::sin(t) * v[0] + std::cos(t) * v[1]};
}

// ---- definitions
void law_rotates__def(float t, Vec2 v) { equal(Rotation{t} * v, turned(t, v)); }
void law_translates__def(Vec2 o, Vec2 v) { equal(Translation{o} * v, Vec2{v[0] + o[0], v[1] + o[1]}); }
void law_rotates_then_translates__def(A a, Vec2 v)
{
    Vec2 r = turned(a.t, v);
    equal(a.p() * v, Vec2{r[0] + a.o[0], r[1] + a.o[1]});
}
void law_identity__transform(Vec2 v) { equal(Transform::identity() * v, v); equal(Transform{} * v, v); }
void law_factories__transform(float t, Vec2 o, Vec2 v)
{
    equal(Transform::rotation(t) * v, turned(t, v));
    equal(Transform::translation(o) * v, Vec2{v[0] + o[0], v[1] + o[1]});
}

// ---- composition is application in sequence
void law_compose__RR(A a, A b, Vec2 v) { equal((a.r() * b.r()) * v, a.r() * (b.r() * v)); }
void law_compose__LL(A a, A b, Vec2 v) { equal((a.l() * b.l()) * v, a.l() * (b.l() * v)); }
void law_compose__RL(A a, A b, Vec2 v) { equal((a.r() * b.l()) * v, a.r() * (b.l() * v)); }
void law_compose__LR(A a, A b, Vec2 v) { equal((a.l() * b.r()) * v, a.l() * (b.r() * v)); }
void law_compose__PL(A a, A b, Vec2 v) { equal((a.p() * b.l()) * v, a.p() * (b.l() * v)); }
void law_compose__PR(A a, A b, Vec2 v) { equal((a.p() * b.r()) * v, a.p() * (b.r() * v)); }
void law_compose__LP(A a, A b, Vec2 v) { equal((a.l() * b.p()) * v, a.l() * (b.p() * v)); }
void law_compose__RP(A a, A b, Vec2 v) { equal((a.r() * b.p()) * v, a.r() * (b.p() * v)); }
void law_compose__PP(A a, A b, Vec2 v) { equal((a.p() * b.p()) * v, a.p() * (b.p() * v)); }
void law_compose__three(A a, A b, A c, Vec2 v)
{
    equal((a.p() * b.p() * c.p()) * v, a.p() * (b.p() * (c.p() * v)));
}
// the angle and offset that are read back belong to the composed pose
void law_compose_angle__all(A a, A b)
{
    equal((a.r() * b.r()).theta(), a.t + b.t);
    equal((a.p() * b.p()).rotation().theta(), a.t + b.t);
    equal((a.r() * b.p()).rotation().theta(), a.t + b.t);
    equal((a.p() * b.r()).rotation().theta(), a.t + b.t);
    equal((a.l() * b.p()).rotation().theta(), b.t);
    equal((a.p() * b.l()).rotation().theta(), a.t);
    equal((a.p() * b.p()).translation().offset(), (a.p() * b.p()) * Vec2{0.f, 0.f});
}

// ---- updates in place agree with the products
void law_in_place__R(A a, A b, Vec2 v)
{
    Rotation r = a.r();
    r *= b.r();
    equal(r * v, (a.r() * b.r()) * v);
    equal(r.theta(), a.t + b.t);
}
void law_in_place__L(A a, A b, Vec2 v)
{
    Translation l = a.l();
    equal((l *= b.l()) * v, (a.l() * b.l()) * v);
    equal(l * v, (a.l() * b.l()) * v);
    equal(l.offset(), Vec2{a.o[0] + b.o[0], a.o[1] + b.o[1]});
}
// the other operand may be the object itself
void law_in_place__self(A a, Vec2 v)
{
    Rotation    r = a.r();
    Translation l = a.l();
    r *= r;
    l *= l;
    equal(r.theta(), 2.f * a.t);
    equal(r * v, a.r() * (a.r() * v));
    equal(l * v, v + a.o + a.o);
    Rotation q = a.r();
    equal((q * q) * v, a.r() * (a.r() * v));
    equal((q * q.inverse()) * v, v);
}
void law_in_place__set(A a, A b, Vec2 v)
{
    Rotation r = a.r();
    r.set(b.t);
    equal(r * v, turned(b.t, v));
    equal(r.theta(), b.t);
    Translation l = a.l();
    l.set(b.o);
    equal(l * v, b.l() * v);
}
void law_in_place__parts(A a, A b, Vec2 v)
{
    Transform p = a.p();
    p.rotation().set(b.t);
    p.translation().set(b.o);
    equal(p * v, b.p() * v);
    equal(p.rotation().theta(), b.t);
    equal(p.translation().offset(), b.o);
}

// ---- inverses
void law_inverse__R(A a, Vec2 v) { equal(a.r().inverse() * (a.r() * v), v); equal(a.r() * (a.r().inverse() * v), v); }
void law_inverse__L(A a, Vec2 v) { equal(a.l().inverse() * (a.l() * v), v); equal(a.l() * (a.l().inverse() * v), v); }
void law_inverse__P(A a, Vec2 v) { equal(a.p().inverse() * (a.p() * v), v); equal(a.p() * (a.p().inverse() * v), v); }
void law_inverse_angle__all(A a)
{
    equal(a.r().inverse().theta(), -a.t);
    equal(a.p().inverse().rotation().theta(), -a.t);
}
void law_inverse__twice(A a, Vec2 v) { equal(a.p().inverse().inverse() * v, a.p() * v); }
void law_inverse__continued(A a, A b, Vec2 v)
{
    // an inverse keeps composing and updating correctly
    Rotation r = a.r().inverse();
    r *= b.r();
    equal(r * v, turned(b.t - a.t, v));
}

// ---- rigid: lengths and angles survive
void law_rigid__distance(A a, Vec2 v, Vec2 w) { equal(normSquared(a.p() * v - a.p() * w), normSquared(v - w)); }
void law_rigid__orientation(A a, Vec2 u, Vec2 v, Vec2 w)
{
    equal(cross(a.p() * v - a.p() * u, a.p() * w - a.p() * u), cross(v - u, w - u));
}

// ---- matrix form
void law_matrix__R(A a, Vec2 v) { equal(Mat3{a.r()} * v, a.r() * v); }
void law_matrix__L(A a, Vec2 v) { equal(Mat3{a.l()} * v, a.l() * v); }
void law_matrix__P(A a, Vec2 v) { equal(Mat3{a.p()} * v, a.p() * v); }
void law_matrix__product(A a, A b) { equal(Mat3{a.p() * b.p()}, Mat3{a.p()} * Mat3{b.p()}); }

// ---- rotating about a point
void law_around__pivot(float t, Vec2 o, Vec2 c)
{
    equal(Transform::transformAround(t, o, c) * c, Vec2{c[0] + o[0], c[1] + o[1]});
}
void law_around__point(float t, Vec2 o, Vec2 c, Vec2 v)
{
    Vec2 r = turned(t, Vec2{v[0] - c[0], v[1] - c[1]});
    equal(Transform::transformAround(t, o, c) * v, Vec2{r[0] + c[0] + o[0], r[1] + c[1] + o[1]});
}
} // namespace laws
