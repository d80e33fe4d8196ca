#include "laws.hpp"
#include "any.hpp"

namespace laws
{
typedef Vector<float, 1> V1;

// ---- the impulse lies between nothing and throttle x force x time along the direction
inline void law_bound__rotation(RotationMotorFunction f, V1 lambda, float dt)
{
    V1 l = f.clampLambda(lambda, dt);
    float most = f.direction()[0] * f.throttle() * f.maxForce_ * dt;
    if (most >= 0.f)
    {
        atLeastZero(l[0]);
        atLeastZero(most - l[0]);
    }
    else
    {
        atLeastZero(-l[0]);
        atLeastZero(l[0] - most);
    }
}
inline void law_bound__translation(TranslationMotorFunction f, Vec2 lambda, float dt)
{
    Vec2 l = f.clampLambda(lambda, dt);
    for (Uint32 i = 0; i < 2; ++i)
    {
        float most = f.direction()[i] * f.throttle() * f.maxForce_ * dt;
        if (most >= 0.f)
        {
            atLeastZero(l[i]);
            atLeastZero(most - l[i]);
        }
        else
        {
            atLeastZero(-l[i]);
            atLeastZero(l[i] - most);
        }
    }
}
// impulses inside the bound are left alone
inline void law_bound__inside(RotationMotorFunction f, V1 lambda, float dt)
{
    float most = f.direction()[0] * f.throttle() * f.maxForce_ * dt;
    given(lambda[0] >= 0.f);
    given(lambda[0] <= most);
    equal(f.clampLambda(lambda, dt)[0], lambda[0]);
}
inline void law_bound__inside_both(TranslationMotorFunction f, Vec2 lambda, float dt)
{
    for (Uint32 i = 0; i < 2; ++i)
    {
        float most = f.direction()[i] * f.throttle() * f.maxForce_ * dt;
        given(lambda[i] <= 0.f);
        given(lambda[i] >= most);
    }
    equal(f.clampLambda(lambda, dt)[0], lambda[0]);
    equal(f.clampLambda(lambda, dt)[1], lambda[1]);
}
// ---- the magnitudes given to the motor count, not their signs
inline void law_magnitudes__rotation(float w, float torque, V1 dir, V1 lambda, float dt)
{
    RotationMotorFunction f{w, torque};
    RotationMotorFunction g{-w, torque};
    RotationMotorFunction h{w, -torque};
    f.direction(dir);
    g.direction(dir);
    h.direction(dir);
    equal(f.clampLambda(lambda, dt), h.clampLambda(lambda, dt));
    equal(f.clampLambda(lambda, dt), g.clampLambda(lambda, dt));
}
// ---- the throttle is a fraction
inline void law_throttle__clamped(TranslationMotorFunction f, float t)
{
    f.throttle(t);
    equal(f.throttle(), t < 0.f ? 0.f : 1.f < t ? 1.f : t);
}
inline void law_throttle__initial(float a, float b)
{
    equal(TranslationMotorFunction{a, b}.throttle(), 1.f);
    equal(RotationMotorFunction{a, b}.throttle(), 1.f);
    equal(TranslationMotorFunction{a, b}.direction(), Vec2::filled(0.f));
}
// ---- the direction is a unit vector, or none
inline void law_direction__unit(TranslationMotorFunction f, Vec2 d)
{
    f.direction(d);
    if (normSquared(d) != 0.f)
    {
        equal(f.direction()[0] * norm(d), d[0]);
        equal(f.direction()[1] * norm(d), d[1]);
    }
    else
        equal(f.direction(), Vec2::filled(0.f));
}
// ---- it drives the first body towards maximal velocity along the direction
inline void law_target__rotation(Pair a, RotationMotorFunction f)
{
    Solve s{a};
    V1 Jv = through<1>(f.jacobian(s.proxies), s.proxies.velocity());
    equal(Jv[0] + f.bias(s.proxies)[0], a.w0 - f.maxVelocity_ * f.direction()[0]);
}
inline void law_target__translation(Pair a, TranslationMotorFunction f)
{
    Solve s{a};
    Vec2 Jv = through<2>(f.jacobian(s.proxies), s.proxies.velocity());
    equal(Jv[0] + f.bias(s.proxies)[0], a.v0[0] - f.maxVelocity_ * f.direction()[0]);
    equal(Jv[1] + f.bias(s.proxies)[1], a.v0[1] - f.maxVelocity_ * f.direction()[1]);
}
// ---- motors move nothing by position, and touch one body only
template <class F>
void law_no_position__motor(Pair a, F f, typename F::Value lambda)
{
    Solve s{a};
    equal(f.clampPositionLambda(lambda), F::Value::filled(0.f));
    equal(f.eval(s.proxies), F::Value::filled(0.f));
    auto P = ConstraintSolverBase<F>::impulse(f.jacobian(s.proxies), lambda);
    equal(P[3], 0.f);
    equal(P[4], 0.f);
    equal(P[5], 0.f);
}
// ---- how the strength is specified
inline void law_specs__rotation(const Bodies& b, float w, float x, float y)
{
    typedef RotationMotor::Specs S;
    equal(S::fromTorque(w, x).maxTorque(b), x);
    equal(S::fromTorque(w, x).maxAngularVelocity(), w);
    equal(S::fromAccel(w, x).maxTorque(b), x * b[0]->inertia());
    equal(S::fromAccel(w, x).maxAngularVelocity(), w);
    equal(S::fromAccel(w, x, y).maxTorque(b), x * y);
    equal(S::fromAccel(w, x, y).maxAngularVelocity(), w);
    equal(S::fromTargetForce(w, x, y).maxTorque(b), x * y);
    equal(S::fromTargetForce(w, x, y).maxAngularVelocity(), w);
}
inline void law_specs__translation(const Bodies& b, float w, float x, float y)
{
    typedef TranslationMotor::Specs S;
    equal(S::fromForce(w, x).maxForce(b), x);
    equal(S::fromForce(w, x).maxVelocity(), w);
    equal(S::fromAccel(w, x).maxForce(b), x * b[0]->mass());
    equal(S::fromAccel(w, x).maxVelocity(), w);
    equal(S::fromAccel(w, x, y).maxForce(b), x * y);
    equal(S::fromAccel(w, x, y).maxVelocity(), w);
}
// ---- a motor of a body has the stated strength, heeds its controls, and wakes its body
inline void law_motor__rotation(Body& a, float w, float x, float t, V1 d)
{
    given(a.mass() > 0.f);
    given(a.inertia() > 0.f);
    Bodies k = Bodies::singleBody(&a);
    RotationMotor m{k, RotationMotor::Specs::fromTorque(w, x)};
    equal(m.f.maxVelocity_, w < 0.f ? -w : w);
    equal(m.f.maxForce_, x < 0.f ? -x : x);
    holds(!m.disablesContacts());
    equal(m.throttle(), 1.f);
    a.isAsleep_ = true;
    m.throttle(t);
    holds(!a.isAsleep_);
    equal(m.throttle(), t < 0.f ? 0.f : 1.f < t ? 1.f : t);
    equal(m.f.throttle(), m.throttle());
    a.isAsleep_ = true;
    m.direction(d);
    holds(!a.isAsleep_);
    equal(m.f.direction()[0], m.direction()[0]);
    equal(m.direction()[0] * norm(d), d[0]);
}
inline void law_motor__translation(Body& a, float w, float x, float t, Vec2 d)
{
    given(a.mass() > 0.f);
    given(a.inertia() > 0.f);
    Bodies k = Bodies::singleBody(&a);
    TranslationMotor m{k, TranslationMotor::Specs::fromForce(w, x)};
    equal(m.f.maxVelocity_, w < 0.f ? -w : w);
    equal(m.f.maxForce_, x < 0.f ? -x : x);
    holds(!m.disablesContacts());
    equal(m.throttle(), 1.f);
    a.isAsleep_ = true;
    m.throttle(t);
    holds(!a.isAsleep_);
    equal(m.throttle(), t < 0.f ? 0.f : 1.f < t ? 1.f : t);
    equal(m.f.throttle(), m.throttle());
    a.isAsleep_ = true;
    m.direction(d);
    holds(!a.isAsleep_);
    equal(m.f.direction()[0], m.direction()[0]);
    equal(m.direction()[0] * norm(d), d[0]);
    equal(m.direction()[1] * norm(d), d[1]);
}
inline void law_motor__acceleration(Body& a, float w, float x)
{
    given(a.mass() > 0.f);
    given(a.inertia() > 0.f);
    given(x > 0.f);
    Bodies k = Bodies::singleBody(&a);
    TranslationMotor m{k, TranslationMotor::Specs::fromAccel(w, x)};
    RotationMotor    r{k, RotationMotor::Specs::fromAccel(w, x)};
    equal(m.f.maxForce_, x * a.mass());
    equal(r.f.maxForce_, x * a.inertia());
}
inline void instances()
{
    law_no_position__motor<RotationMotorFunction>(*(Pair*)0, *(RotationMotorFunction*)0, V1{});
    law_no_position__motor<TranslationMotorFunction>(*(Pair*)0, *(TranslationMotorFunction*)0, Vec2{});
}
} // namespace laws
