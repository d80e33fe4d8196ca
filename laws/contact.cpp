#include "laws.hpp"
#include "any.hpp"

namespace laws
{
template <Uint32 n>
struct N
{
};
// a contact of two bodies in any pose and motion, seen the way a step solves it
struct Touch
{
    Solve s;
    Vel   v; // velocities before
    explicit Touch(const Pair& a) : s{a}, v{s.proxies.velocity()} {}
};
// two bodies turned by nothing, their centroids at their origins; and a frame
// that need not come from a manifold
inline Pair upright(Pair a)
{
    a.t0 = 0.f;
    a.t1 = 0.f;
    a.c0 = Vec2{0.f, 0.f};
    a.c1 = Vec2{0.f, 0.f};
    return a;
}
inline Vec2 velocityAt(const Vel& v, Uint32 body, Vec2 center, Vec2 p)
{
    float w = v[3 * body + 2];
    return Vec2{v[3 * body] - w * (p[1] - center[1]), v[3 * body + 1] + w * (p[0] - center[0])};
}
// velocity of the first body's contact point relative to the second's
inline Vec2 slip(const Touch& t, const ContactConstraint& c, Uint32 k, const Vel& v)
{
    return velocityAt(v, 0, t.s.p0.centroid(), c.frame_.contacts[0][k])
           - velocityAt(v, 1, t.s.p1.centroid(), c.frame_.contacts[1][k]);
}
inline float along(Vec2 a, Vec2 b) { return a[0] * b[0] + a[1] * b[1]; }

// ---- the frame is the stored manifold moved with the bodies
template <Uint32 n>
void law_frame__moves(Pair a, ContactConstraint c, N<n>)
{
    given(c.manifold_.nContacts_ == n);
    Touch t{a};
    c.isActive(t.s.proxies);
    Transform T[2] = {t.s.p0.toWorldSpace(), t.s.p1.toWorldSpace()};
    Uint32    r    = c.manifold_.referenceIndex_;
    for (Uint32 b = 0; b < 2; ++b)
        for (Uint32 k = 0; k < n; ++k)
            equal(c.frame_.contacts[b][k], T[b] * c.manifold_.contacts_[b][k]);
    // the normal points out of the second body
    float s = r == 1 ? 1.f : -1.f;
    equal(c.frame_.normal, s * (T[r].rotation() * c.manifold_.contactNormal_));
    equal(c.frame_.tangent, Vec2{-c.frame_.normal[1], c.frame_.normal[0]});
    holds(c.frame_.nContacts == n);
}
template <Uint32 n>
void law_frame__active(Pair a, ContactConstraint c, N<n>)
{
    given(c.manifold_.nContacts_ == n);
    Touch t{a};
    holds(c.isActive(t.s.proxies) == (n != 0));
}
// ---- rates: relative velocity of the touching points
template <Uint32 n>
void law_rate__normal(Pair a, ContactConstraint c, N<n>)
{
    given(c.manifold_.nContacts_ == n);
    Touch t{a};
    c.isActive(t.s.proxies);
    c.computeJacobians(t.s.proxies, true);
    Vec2 r = c.Jn * t.v;
    for (Uint32 k = 0; k < n; ++k)
        equal(r[k], along(c.frame_.normal, slip(t, c, k, t.v)));
}
template <Uint32 n>
void law_rate__tangent(Pair a, ContactConstraint c, N<n>)
{
    given(c.manifold_.nContacts_ == n);
    Touch t{a};
    c.isActive(t.s.proxies);
    c.computeJacobians(t.s.proxies, true);
    for (Uint32 k = 0; k < n; ++k)
        equal((c.Jf[k] * t.v)[0], along(c.frame_.tangent, slip(t, c, k, t.v)));
}
// ---- impulses sum up over a step
template <Uint32 n>
Vel effect(const Pair& a, const ContactConstraint& c, Vec2 normal, Vec2 tangent)
{
    Vel P{};
    for (Uint32 i = 0; i < 6; ++i)
        for (Uint32 k = 0; k < n; ++k)
            P[i] += c.Jn(k, i) * normal[k] + c.Jf[k][i] * tangent[k];
    return weighted(a.m, P);
}
template <Uint32 n>
void law_warm_start__repeats(Pair a, ContactConstraint c, N<n>, float dt)
{
    given(c.manifold_.nContacts_ == n);
    Touch t{a};
    Vec2  ln = c.normalLambda_, lt = c.tangentLambda_;
    c.isActive(t.s.proxies);
    c.initSolve(t.s.proxies);
    for (Uint32 k = 0; k < 2; ++k)
    {
        equal(c.normalLambda_[k], 0.f);
        equal(c.tangentLambda_[k], 0.f);
    }
    equal(t.s.proxies.velocity(), t.v);
    c.warmstart(t.s.proxies, dt);
    Vel e = effect<n>(a, c, ln, lt);
    Vel v = t.s.proxies.velocity();
    for (Uint32 i = 0; i < 6; ++i)
        equal(v[i], t.v[i] + e[i]);
    for (Uint32 k = 0; k < n; ++k)
    {
        equal(c.normalLambda_[k], ln[k]);
        equal(c.tangentLambda_[k], lt[k]);
    }
}
template <Uint32 n>
void law_warm_start__applies(Pair a, ContactConstraint c, N<n>, float dt)
{
    given(c.manifold_.nContacts_ == n);
    given(c.frame_.nContacts == n);
    Touch t{a};
    for (Uint32 k = n; k < 2; ++k)
        for (Uint32 i = 0; i < 6; ++i)
        {
            c.Jn(k, i) = 0.f;
            c.Jf[k][i] = 0.f;
        }
    c.warmstart(t.s.proxies, dt);
    Vel e = effect<n>(a, c, c.normalLambda_, c.tangentLambda_);
    Vel v = t.s.proxies.velocity();
    for (Uint32 i = 0; i < 6; ++i)
        equal(v[i], t.v[i] + e[i]);
}
// a contact in the middle of being solved: any frame, any masses, any rates
template <Uint32 n>
void law_applied_is_accumulated__solve(Pair a, ContactConstraint c, N<n>, float dt)
{
    given(c.manifold_.nContacts_ == n);
    given(c.frame_.nContacts == n);
    Touch t{a};
    Vec2  ln = c.normalLambda_, lt = c.tangentLambda_;
    c.solveVelocities(t.s.proxies, dt);
    Vel e = effect<n>(a, c, c.normalLambda_ - ln, c.tangentLambda_ - lt);
    Vel v = t.s.proxies.velocity();
    for (Uint32 i = 0; i < 6; ++i)
        equal(v[i], t.v[i] + e[i]);
}
template <Uint32 n>
void law_friction__bounded(Pair a, ContactConstraint c, N<n>, float dt)
{
    given(c.manifold_.nContacts_ == n);
    given(c.frame_.nContacts == n);
    given(c.frictionCoeff_ >= 0.f);
    Touch t{a};
    for (Uint32 k = 0; k < 2; ++k)
        for (Uint32 i = 1; i < 6; ++i)
            c.Jf[k][i] = 0.f;
    Vec2  ln = c.normalLambda_;
    given(ln[0] >= 0.f);
    given(ln[1] >= 0.f);
    c.solveVelocities(t.s.proxies, dt);
    for (Uint32 k = 0; k < n; ++k)
    {
        float most = c.frictionCoeff_ * ln[k];
        holds(c.tangentLambda_[k] <= most);
        holds(-c.tangentLambda_[k] <= most);
    }
}
// when the bound allows it, friction stops the slip (each contact in turn)
inline void law_friction__stops(Pair a, ContactConstraint c, float dt)
{
    given(c.manifold_.nContacts_ == 1);
    given(c.frame_.nContacts == 1);
    Touch t{a};
    given(c.frictionCoeff_ * c.normalLambda_[0] > 0.f);
    Vec2 lt   = c.tangentLambda_;
    float rate = (c.Jf[0] * t.v)[0];
    float want = lt[0] - rate * c.invTangentKs_[0];
    given(want < c.frictionCoeff_ * c.normalLambda_[0]);
    given(want > -c.frictionCoeff_ * c.normalLambda_[0]);
    c.solveVelocities(t.s.proxies, dt);
    equal(c.tangentLambda_[0], want);
}
inline void law_normal__pushes(Pair a, ContactConstraint c, float dt)
{
    given(c.manifold_.nContacts_ == 1);
    given(c.frame_.nContacts == 1);
    Touch t{a};
    c.solveVelocities(t.s.proxies, dt);
    atLeastZero(c.normalLambda_[0]);
}
// ---- effective masses
template <Uint32 n>
void law_effective_mass__tangent(Pair a, ContactConstraint c, N<n>)
{
    given(c.manifold_.nContacts_ == n);
    given(c.frame_.nContacts == n);
    Touch t{upright(a)};
    c.initSolve(t.s.proxies);
    for (Uint32 k = 0; k < n; ++k)
    {
        float K = 0.f;
        Vel   J = transpose(c.Jf[k]);
        Vel   M = weighted(a.m, J);
        for (Uint32 i = 0; i < 6; ++i)
            K += J[i] * M[i];
        given(K != 0.f);
        equal(c.invTangentKs_[k] * K, 1.f);
    }
}
inline float through2(const InvMasses& m, const Matrix<float, 2, 6>& J, Uint32 r, Uint32 s)
{
    Vel x;
    for (Uint32 i = 0; i < 6; ++i)
        x[i] = J(r, i);
    Vel   M = weighted(m, x);
    float K = 0.f;
    for (Uint32 i = 0; i < 6; ++i)
        K += M[i] * J(s, i);
    return K;
}
inline void law_effective_mass__normal(Pair a, ContactConstraint c)
{
    given(c.manifold_.nContacts_ == 1);
    given(c.frame_.nContacts == 1);
    Touch t{upright(a)};
    c.initSolve(t.s.proxies);
    float K = through2(a.m, c.Jn, 0, 0);
    given(K != 0.f);
    equal(c.invNormalK11_ * K, 1.f);
}
inline void law_effective_mass__pair(Pair a, ContactConstraint c)
{
    given(c.manifold_.nContacts_ == 2);
    given(c.frame_.nContacts == 2);
    Touch t{upright(a)};
    c.computeJacobians(t.s.proxies, true);
    c.computeKs(t.s.proxies, true);
    Mat2 K = c.normalKSolver_.original();
    for (Uint32 r = 0; r < 2; ++r)
        for (Uint32 s = 0; s < 2; ++s)
            equal(K(r, s), through2(a.m, c.Jn, r, s));
}
// ---- bounce
template <Uint32 n>
void law_bounce__fast_only(Pair a, ContactConstraint c, N<n>)
{
    given(c.manifold_.nContacts_ == n);
    given(c.frame_.nContacts == n);
    Touch t{upright(a)};
    c.initSolve(t.s.proxies);
    Vec2 r = c.Jn * t.v;
    for (Uint32 k = 0; k < n; ++k)
        equal(c.bounce_[k], r[k] > -ContactConstraint::restitutionTreshold ? 0.f : c.restitutionCoeff_ * r[k]);
}
// ---- after one contact is solved, it separates or is carried
inline void law_resolved__one(Pair a, ContactConstraint c, float dt)
{
    given(c.manifold_.nContacts_ == 1);
    given(c.frame_.nContacts == 1);
    Touch t{a};
    for (Uint32 i = 1; i < 6; ++i)
    {
        c.Jn(0, i)  = 0.f;
        c.Jf[0][i]  = i == 1 ? c.Jf[0][i] : 0.f;
    }
    float K = a.m.m0 * c.Jn(0, 0) * c.Jn(0, 0);
    given(a.m.m0 > 0.f);
    given(c.Jn(0, 0) != 0.f);
    c.invNormalK11_ = 1.f / K;
    c.solveVelocities(t.s.proxies, dt);
    float v = (c.Jn * t.s.proxies.velocity())[0] + c.bounce_[0];
    equal(v * c.normalLambda_[0], 0.f);
    atLeastZero(v);
}
// ---- two contacts are handed to the complementarity solver together
inline void law_resolved__two(Pair a, ContactConstraint c, float dt)
{
    given(c.manifold_.nContacts_ == 2);
    given(c.frame_.nContacts == 2);
    Touch t{a};
    Vec2  ln = c.normalLambda_, lt = c.tangentLambda_;
    c.solveVelocities(t.s.proxies, dt);
    Vel  e = effect<2>(a, c, Vec2{}, c.tangentLambda_ - lt);
    Vel  v = t.v + e;
    Mat2 K = c.normalKSolver_.original();
    Vec2 b;
    for (Uint32 k = 0; k < 2; ++k)
    {
        b[k] = -c.bounce_[k] + K(k, 0) * ln[0] + K(k, 1) * ln[1];
        for (Uint32 i = 0; i < 6; ++i)
            b[k] -= c.Jn(k, i) * v[i];
    }
    equal(c.normalLambda_, c.normalKSolver_.solve(b));
}
// ---- positions: only sinking too deep is corrected, a part of it at a time
inline float depth(const ContactConstraint& c, Uint32 k)
{
    return along(c.frame_.normal, c.frame_.contacts[0][k] - c.frame_.contacts[1][k]);
}
template <Uint32 n>
void law_position__tolerated(Pair a, ContactConstraint c, N<n>)
{
    given(c.manifold_.nContacts_ == n);
    given(c.manifold_.minPen_ > 0.f);
    a = upright(a);
    Touch t{a};
    c.isActive(t.s.proxies);
    for (Uint32 k = 0; k < n; ++k)
        given(depth(c, k) > -ContactConstraint::sinkTolerance * c.manifold_.minPen_);
    c.solvePositions(t.s.proxies);
    equal(t.s.p0.position(), Vec2{a.x0, a.y0});
    equal(t.s.p1.position(), Vec2{a.x1, a.y1});
    equal(t.s.p0.orientation(), a.t0);
    equal(t.s.p1.orientation(), a.t1);
    equal(t.s.proxies.velocity(), t.v);
}
inline void law_position__pushes(Pair a, ContactConstraint c)
{
    given(c.manifold_.nContacts_ == 1);
    given(c.manifold_.minPen_ > 0.f);
    a.m.m0 = 2.f;
    a.m.m1 = 3.f;
    a.m.I0 = 0.f;
    a.m.I1 = 0.f;
    a = upright(a);
    c.manifold_.contactNormal_ = Vec2{1.f, 0.f};
    Touch t{a};
    c.isActive(t.s.proxies);
    float C = depth(c, 0);
    given(C < -ContactConstraint::sinkTolerance * c.manifold_.minPen_);
    c.solvePositions(t.s.proxies);
    float K = through2(a.m, c.Jn, 0, 0);
    given(K > 0.f);
    // movement of the contact along the normal
    Vel moved{t.s.p0.position()[0] - a.x0, t.s.p0.position()[1] - a.y0, t.s.p0.orientation() - a.t0,
              t.s.p1.position()[0] - a.x1, t.s.p1.position()[1] - a.y1, t.s.p1.orientation() - a.t1};
    float d = 0.f;
    for (Uint32 i = 0; i < 6; ++i)
        d += c.Jn(0, i) * moved[i];
    float want = -ContactConstraint::posCorrectionFactor * (C + c.manifold_.minPen_);
    want       = want > ContactConstraint::maxCorrection ? ContactConstraint::maxCorrection : want;
    equal(d, want);
    equal(t.s.proxies.velocity(), t.v);
}
inline void law_position__opposite(Pair a, ContactConstraint c)
{
    given(c.manifold_.nContacts_ == 1);
    a = upright(a);
    Touch t{a};
    c.isActive(t.s.proxies);
    c.solvePositions(t.s.proxies);
    for (Uint32 i = 0; i < 2; ++i)
    {
        float d0 = t.s.p0.position()[i] - (i ? a.y0 : a.x0), d1 = t.s.p1.position()[i] - (i ? a.y1 : a.x1);
        equal(d0 * a.m.m1 + d1 * a.m.m0, 0.f);
    }
}
inline void law_position__pair(Pair a, ContactConstraint c)
{
    given(c.manifold_.nContacts_ == 2);
    a = upright(a);
    Touch t{a};
    c.isActive(t.s.proxies);
    c.solvePositions(t.s.proxies);
    for (Uint32 i = 0; i < 2; ++i)
    {
        float d0 = t.s.p0.position()[i] - (i ? a.y0 : a.x0), d1 = t.s.p1.position()[i] - (i ? a.y1 : a.x1);
        equal(d0 * a.m.m1 + d1 * a.m.m0, 0.f);
    }
}
template <Uint32 n>
void each()
{
    Pair& a = *(Pair*)0;
    ContactConstraint& c = *(ContactConstraint*)0;
    law_frame__moves(a, c, N<n>{});
    law_rate__normal(a, c, N<n>{});
    law_rate__tangent(a, c, N<n>{});
    law_warm_start__applies(a, c, N<n>{}, 0.f);
    if constexpr (n == 1)
        law_warm_start__repeats(a, c, N<n>{}, 0.f);
    law_applied_is_accumulated__solve(a, c, N<n>{}, 0.f);
    law_friction__bounded(a, c, N<n>{}, 0.f);
    law_effective_mass__tangent(a, c, N<n>{});
    law_bounce__fast_only(a, c, N<n>{});
    law_position__tolerated(a, c, N<n>{});
    law_frame__active(a, c, N<n>{});
}
inline void instances()
{
    each<1>();
    each<2>();
    law_frame__active(*(Pair*)0, *(ContactConstraint*)0, N<0>{});
}
} // namespace laws
