"""planted bugs: edits of /repo, demonstrations"""
H = r'''
#include <cstdio>
#include <cmath>
#include <vector>
#include <memory>
#include <limits>
#include "Simu/physics.hpp"
#include "Simu/math.hpp"
using namespace simu;
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); bad = 1; } } while (0)
static Polygon box(float w = 1.f, float h = 1.f, Vec2 at = Vec2{0, 0})
{ return Polygon{Vec2{at[0]-w/2, at[1]-h/2}, Vec2{at[0]+w/2, at[1]-h/2}, Vec2{at[0]+w/2, at[1]+h/2}, Vec2{at[0]-w/2, at[1]+h/2}}; }
static Body* mk(World& w, Vec2 at, float dominance = 1.f, float sx = 1.f, float sy = 1.f)
{ BodyDescriptor d{}; d.position = at; d.dominance = dominance; Body* b = w.makeBody(d); b->addCollider(ColliderDescriptor{box(sx, sy)}); return b; }
'''
SEEDS = []


def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=H + demo, needs=needs, breaks=breaks))


W = "src/Simu/physics/World.cpp"
WH = "include/Simu/physics/World.hpp"
B = "src/Simu/physics/Body.cpp"
BH = "include/Simu/physics/Body.hpp"
CO = "include/Simu/physics/Collider.hpp"
IS = "include/Simu/physics/Island.hpp"

S("s01", "C01", [(W, "        for (Body* body : (*c)->bodies())\n        {\n            std::erase(body->constraints_, c->get());",
                  "        for (Body* body : (*c)->bodies())\n        {\n            if (body->isStructural())\n                continue;\n            std::erase(body->constraints_, c->get());")],
  r'''
int main()
{
    World w;
    Body* a = mk(w, Vec2{0, 0}, 0.f);
    Body* b = mk(w, Vec2{3, 0});
    auto* c = w.makeConstraint<HingeConstraint>(Bodies{a, b}, Vec2{1, 0});
    w.step(0.01f);
    EXPECT(a->constraints().begin() != a->constraints().end());
    c->kill();
    w.step(0.01f);
    EXPECT(!(a->constraints().begin() != a->constraints().end()));
    EXPECT(!(b->constraints().begin() != b->constraints().end()));
    return bad;
}
''', "a constraint between a structural and a dynamic body that is killed", "the structural body keeps a dangling pointer to the destroyed constraint")

S("s02", "C03", [(W, "            c->kill();\n    }\n}\n\nvoid World::cleanup", "        {\n            c->kill();\n            if (b->isStructural())\n                break;\n        }\n    }\n}\n\nvoid World::cleanup")],
  r'''
int main()
{
    World w;
    BodyDescriptor gd{}; gd.dominance = 0.f;
    Body* ground = w.makeBody(gd);
    Collider* first = ground->addCollider(ColliderDescriptor{box(10.f, 1.f)});
    ground->addCollider(ColliderDescriptor{box(1.f, 1.f, Vec2{20, 0})});
    mk(w, Vec2{-2, 0.95f});
    mk(w, Vec2{2, 0.95f});
    w.step(0.001f);
    int n = 0;
    for (ContactConstraint* c : ground->contacts()) { (void)c; ++n; }
    EXPECT(n == 2);
    ground->removeCollider(first);
    for (ContactConstraint* c : ground->contacts())
        EXPECT(c->isDead());
    return bad;
}
''', "a structural body whose collider is in contact with two bodies loses that collider", "the second contact survives and keeps a pointer to the destroyed collider")

S("s03", "C04", [(W, "    if (dt > 0.f)\n    {\n        // TODO: While", "    if (dt != 0.f)\n    {\n        // TODO: While")],
  r'''
int main()
{
    World w;
    Body* a = mk(w, Vec2{0, 0});
    a->setVelocity(Vec2{1, 0});
    w.step(0.f);
    EXPECT(a->position()[0] == 0.f);
    w.step(-1.f);
    EXPECT(a->position()[0] == 0.f);
    return bad;
}
''', "a step with a negative time step", "time runs backwards instead of the step only running the hooks")

S("s04", "C02", [(WH, "            body->constraints_.emplace_back(c);\n            body->wake();", "            body->constraints_.emplace_back(c);\n            if (body == c->bodies()[0])\n                body->wake();")],
  r'''
int main()
{
    World w;
    Body* a = mk(w, Vec2{0, 0});
    Body* b = mk(w, Vec2{3, 0});
    World::Settings set = w.settings();
    set.enableSleeping = true;
    set.inactivitySleepDelay = 0.1f;
    w.updateSettings(set);
    for (int i = 0; i < 100; ++i) w.step(0.01f);
    EXPECT(a->isAsleep() && b->isAsleep());
    w.makeConstraint<HingeConstraint>(Bodies{a, b}, Vec2{1, 0});
    EXPECT(!a->isAsleep());
    EXPECT(!b->isAsleep());
    return bad;
}
''', "a constraint created between two sleeping bodies", "the second body stays asleep although a constraint was attached to it")

CH = "include/Simu/physics/Constraint.hpp"
CS = "include/Simu/physics/ConstraintSolver.hpp"
GJ = "include/Simu/math/Gjk.inl.hpp"
BI = "include/Simu/physics/Bodies.inl.hpp"
MT = "include/Simu/physics/Motors.hpp"
RT = "include/Simu/physics/RTree.hpp"

S("s05", "C05", [(W, "                if (bodies[0] == b1 || bodies[1] == b1)\n                    return;\n", "                if (bodies[0] == b1 || bodies[1] == b1)\n                    return;\n                if (b1->constraints().begin() == b1->constraints().end() - 1)\n                    break;\n")],
  r'''
int main()
{
    World w;
    Body* far = mk(w, Vec2{10, 0});
    Body* a = mk(w, Vec2{0, 0});
    Body* b = mk(w, Vec2{0.5f, 0});
    w.makeConstraint<HingeConstraint>(Bodies{a, far}, Vec2{5, 0});
    w.makeConstraint<HingeConstraint>(Bodies{a, b}, Vec2{0.25f, 0});
    w.makeConstraint<HingeConstraint>(Bodies{b, a}, Vec2{0.25f, 0});
    w.step(0.0001f);
    EXPECT(!(a->contacts().begin() != a->contacts().end()));
    World v;
    Body* f2 = mk(v, Vec2{10, 0});
    Body* p = mk(v, Vec2{0, 0});
    Body* q = mk(v, Vec2{0.5f, 0});
    v.makeConstraint<HingeConstraint>(Bodies{p, f2}, Vec2{5, 0});
    v.makeConstraint<HingeConstraint>(Bodies{q, f2}, Vec2{5, 0});
    v.makeConstraint<HingeConstraint>(Bodies{p, q}, Vec2{0.25f, 0});
    v.step(0.0001f);
    EXPECT(!(p->contacts().begin() != p->contacts().end()));
    World u;
    Body* f3 = mk(u, Vec2{10, 0});
    Body* x = mk(u, Vec2{0, 0});
    Body* y = mk(u, Vec2{0.5f, 0});
    u.makeConstraint<HingeConstraint>(Bodies{x, f3}, Vec2{5, 0});
    u.makeConstraint<HingeConstraint>(Bodies{y, x}, Vec2{0.25f, 0});
    u.step(0.0001f);
    EXPECT(!(x->contacts().begin() != x->contacts().end()));
    return bad;
}
''', "a body with several constraints that disable contacts, the one naming the other body not being its first", "a contact is created between two bodies whose constraint disables contacts")

S("s06", "C06", [(IS, "            b->position_ = positions_[b->proxyIndex];", "            if (!b->isStructural() || b->angularVelocity() != 0.f)\n                b->position_ = positions_[b->proxyIndex];")],
  r'''
int main()
{
    World w;
    Body* lift = mk(w, Vec2{0, 0}, 0.f);
    lift->setVelocity(Vec2{0, 1});
    for (int i = 0; i < 100; ++i) w.step(0.01f);
    EXPECT(std::abs(lift->position()[1] - 1.f) < 1e-3f);
    return bad;
}
''', "a structural body that moves without turning, like a lift", "the solved pose is not written back, the body stands still")

S("s07", "C07", [(IS, "            if (!root->interactsAsStructural())\n", "            if (!root->interactsAsStructural() && !(root->isAsleep() && current == 1))\n")],
  r'''
int main()
{
    World w;
    World::Settings set = w.settings();
    set.enableSleeping = true;
    set.inactivitySleepDelay = 0.05f;
    set.velocitySleepThreshold = 0.2f;
    set.angularVelocitySleepThreshold = 0.2f;
    w.updateSettings(set);
    Body* b = mk(w, Vec2{5, 0});
    Body* a = mk(w, Vec2{0, 0});
    w.makeConstraint<RotationConstraint>(Bodies{a, b});
    a->setVelocity(Vec2{0.1f, 0});
    b->setVelocity(Vec2{0, 5.f});
    for (int i = 0; i < 100; ++i) w.step(0.01f);
    EXPECT(std::abs(a->position()[0] - 0.1f) < 1e-3f);
    EXPECT(std::abs(b->position()[1] - 5.f) < 1e-2f);
    return bad;
}
''', "a sleeping body joined to one that is awake, visited before it", "the sleeping body is solved on its own and once more in the other's group, moving twice per step")

S("s08", "C09", [(W, "            colliderTree_.forEachIn(force.domain().region, applyForce);", "            const Body* last = nullptr;\n            colliderTree_.forEachIn(force.domain().region, [&](ColliderTree::iterator it) {\n                if (last == (*it)->body() && last->angularVelocity() == 0.f)\n                    return;\n                last = (*it)->body();\n                applyForce(it);\n            });")],
  r'''
struct Count : ForceField
{
    Count() : ForceField{ForceField::region(Vec2{-50, -50}, Vec2{50, 50})} {}
    void apply(Collider&, float) const override { ++n; }
    mutable int n = 0;
};
int main()
{
    World w;
    Body* a = mk(w, Vec2{0, 0});
    a->addCollider(ColliderDescriptor{box(1.f, 1.f, Vec2{1, 0})});
    Count* f = w.makeForceField<Count>();
    w.step(0.01f);
    EXPECT(f->n == 2);
    return bad;
}
''', "a body with several colliders inside a regional field", "only the first collider of a body is acted upon")

S("s09", "C10", [(W, "            std::erase(b->contacts_, contact);\n            b->wake();", "            std::erase(b->contacts_, contact);\n            if (b->contacts_.empty())\n                b->wake();")],
  r'''
int main()
{
    World w;
    World::Settings set = w.settings();
    set.enableSleeping = true;
    set.inactivitySleepDelay = 0.05f;
    set.velocitySleepThreshold = 1000.f;
    set.angularVelocitySleepThreshold = 1000.f;
    w.updateSettings(set);
    BodyDescriptor gd{}; gd.dominance = 0.f;
    Body* ground = w.makeBody(gd);
    ground->addCollider(ColliderDescriptor{box(20.f, 1.f)});
    Body* other = mk(w, Vec2{-4, 0.98f}, 0.f);
    other->kill();
    w.step(0.01f);
    Body* side = mk(w, Vec2{0.f, 0.f}, 0.f);
    (void)side;
    Body* beam = mk(w, Vec2{0, 0.98f}, 1.f, 3.f, 1.f);
    struct Probe : ForceField
    {
        Body* b; mutable bool awake = false;
        Probe(Body* b) : ForceField{ForceField::global()}, b{b} {}
        void preStep() override { awake = !b->isAsleep(); }
        void apply(Collider&, float) const override {}
    };
    Probe* p = w.makeForceField<Probe>(beam);
    for (int i = 0; i < 30; ++i) w.step(0.001f);
    for (int i = 0; i < 100 && !beam->isAsleep(); ++i) w.step(0.001f);
    EXPECT(beam->isAsleep());
    int n = 0;
    ContactConstraint* one = nullptr;
    for (ContactConstraint* c : beam->contacts()) { one = c; ++n; }
    EXPECT(n == 2);
    w.step(0.001f);
    EXPECT(!p->awake);
    one->kill();
    w.step(0.001f);
    EXPECT(p->awake);
    return bad;
}
''', "a sleeping body that rests on two others and loses one of its two contacts", "the body keeps sleeping although it lost a contact")

S("s10", "C15", [(CS, "        canWarmstart_ = (func_ == prev) && (func_ != Func::off);", "        canWarmstart_ = (prev != Func::off) && (func_ != Func::off);")],
  r'''
struct Rod : DistanceConstraint
{
    using DistanceConstraint::DistanceConstraint;
    void limits(float lo, float hi)
    {
        solver.setUpperLimit(std::nullopt);
        solver.setLowerLimit(Value{lo * lo});
        solver.setUpperLimit(Value{hi * hi});
    }
};
int main()
{
    World w;
    Body* a = mk(w, Vec2{0, 0}, 0.f);
    Body* b = mk(w, Vec2{0, 4.f});
    auto* c = w.makeConstraint<Rod>(Bodies{a, b}, std::array<Vec2, 2>{Vec2{0, 0}, Vec2{0, 4.f}}, std::optional<float>(4.1f), std::optional<float>(9.f), true);
    // pushed against the lower limit for two steps
    b->setVelocity(Vec2{0, -3.f});
    w.step(0.001f);
    b->setVelocity(Vec2{0, -3.f});
    w.step(0.001f);
    // now beyond the upper limit, with no iteration left to hide what is re-applied
    c->limits(1.f, 2.f);
    World::Settings set = w.settings();
    set.nVelocityIterations = 0;
    set.nPositionIterations = 0;
    w.updateSettings(set);
    b->setVelocity(Vec2{0, 1.f});
    w.step(0.001f);
    std::printf("%g\n", b->velocity()[1]);
    EXPECT(std::abs(b->velocity()[1] - 1.f) < 1e-3f);
    return bad;
}
''', "a limited constraint that goes from one limit to the other between two steps", "the multiplier of the other limit is re-applied, kicking the body")

S("s11", "C18", [(MT, "            l = (bound < 0) ? clamp(l, bound, 0.f) : clamp(l, 0.f, bound);", "            l = (bound < 0) ? clamp(l, bound, 0.f) : clamp(l, -bound * (dimension - 1), bound);")],
  r'''
int main()
{
    World w;
    Body* a = mk(w, Vec2{0, 0});
    a->setVelocity(Vec2{10, 0});
    auto* m = w.makeConstraint<TranslationMotor>(Bodies::singleBody(a), TranslationMotor::Specs::fromForce(1.f, 10.f));
    m->direction(Vec2{1, 0});
    for (int i = 0; i < 10; ++i) w.step(0.01f);
    EXPECT(std::abs(a->velocity()[0] - 10.f) < 1e-3f);
    return bad;
}
''', "a body already faster than the motor's target along a positive direction", "the motor brakes the body although it only pushes along its direction")

S("s12", "C20", [(CH, "            if (bounce_[c] > -restitutionTreshold)", "            if (bounce_[0] > -restitutionTreshold)")],
  r'''
static std::array<float, 2> land(float spin)
{
    World w;
    Material m{}; m.friction = CombinableProperty{0.f}; m.bounciness = CombinableProperty{1.f};
    BodyDescriptor gd{}; gd.dominance = 0.f;
    ColliderDescriptor g{box(10.f, 1.f)}; g.material = m;
    w.makeBody(gd)->addCollider(g);
    BodyDescriptor d{}; d.position = Vec2{0, 0.99f};
    Body* b = w.makeBody(d);
    ColliderDescriptor cd{box(1.f, 1.f)}; cd.material = m;
    b->addCollider(cd);
    w.step(0.0001f);
    b->setVelocity(Vec2{0, -1.2f});
    b->setAngularVelocity(spin);
    w.step(0.0001f);
    w.step(0.0001f);
    return {b->velocity()[1], b->angularVelocity()};
}
int main()
{
    auto p = land(1.f), q = land(-1.f);
    std::printf("%g %g | %g %g\n", p[0], p[1], q[0], q[1]);
    EXPECT(std::abs(p[0] - q[0]) < 1e-2f);
    EXPECT(std::abs(p[1] + q[1]) < 1e-2f);
    return bad;
}
''', "a box landing on two corners of which only one is fast enough to bounce", "whether a corner bounces is decided by the other one, so mirrored landings end differently")


def sh_demo(flags):
    return '''#!/bin/bash
# exit 0 when the behaviour is right; run with cwd /repo
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$tmp"' EXIT
g++ -std=c++20 -w -DSIMU_OS_LINUX %s -I"$PWD/include" "$here/demo.cpp" "$PWD"/src/Simu/math/*.cpp "$PWD"/src/Simu/physics/*.cpp -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 120 ./demo
''' % flags


MH, MI = "include/Simu/math/Matrix.hpp", "include/Simu/math/Matrix.inl.hpp"
SEEDS[:] = [s for s in SEEDS if s["id"] != "s09"]
S("s09", "C10", [(W, "            std::erase(body->constraints_, c->get());\n            body->wake();", "            std::erase(body->constraints_, c->get());\n            if (body->constraints_.empty())\n                body->wake();")],
  r'''
int main()
{
    World w;
    World::Settings set = w.settings();
    set.enableSleeping = true;
    set.inactivitySleepDelay = 0.05f;
    set.velocitySleepThreshold = 1000.f;
    set.angularVelocitySleepThreshold = 1000.f;
    w.updateSettings(set);
    Body* left = mk(w, Vec2{-10, 0}, 0.f);
    Body* right = mk(w, Vec2{10, 0}, 0.f);
    Body* beam = mk(w, Vec2{0, 0}, 1.f, 3.f, 1.f);
    auto* c1 = w.makeConstraint<HingeConstraint>(Bodies{left, beam}, Vec2{-1, 0});
    auto* c2 = w.makeConstraint<HingeConstraint>(Bodies{right, beam}, Vec2{1, 0});
    (void)c2;
    struct Probe : ForceField
    {
        Body* b; bool awake = false;
        Probe(Body* b) : ForceField{ForceField::global()}, b{b} {}
        void preStep() override { awake = !b->isAsleep(); }
        void apply(Collider&, float) const override {}
    };
    Probe* p = w.makeForceField<Probe>(beam);
    for (int i = 0; i < 200 && !beam->isAsleep(); ++i) w.step(0.01f);
    EXPECT(beam->isAsleep());
    w.step(0.01f);
    EXPECT(!p->awake);
    c1->kill();
    w.step(0.01f);
    EXPECT(p->awake);
    return bad;
}
''', "a sleeping body held by two constraints of which one is removed", "the body keeps sleeping although it lost a constraint")

S("s13", "C22", [(CO, "        properties_ = MassProperties{};\n        for", "        if (colliders_.empty())\n            return;\n\n        properties_ = MassProperties{};\n        for")],
  r'''
int main()
{
    World w;
    BodyDescriptor d{};
    Body* b = w.makeBody(d);
    Collider* first = b->addCollider(ColliderDescriptor{box(1.f, 1.f, Vec2{3, 0})});
    float one = b->mass();
    b->removeCollider(first);
    b->addCollider(ColliderDescriptor{box(1.f, 1.f)});
    EXPECT(std::abs(b->mass() - one) < 1e-5f);
    EXPECT(norm(b->localCentroid()) < 1e-5f);
    return bad;
}
''', "removing the last collider of a body and adding another one afterwards", "the mass and centroid still count the removed collider")

S("s14", "C23", [("include/Simu/physics/CombinableProperty.hpp", "value{combine(mode, first.value, second.value)}", "value{combine(first.mode, first.value, second.value)}")],
  r'''
int main()
{
    typedef CombinableProperty P;
    P a{0.2f, P::minimum}, b{0.8f, P::maximum};
    EXPECT(P(a, b).value == 0.8f);
    EXPECT(P(b, a).value == 0.8f);
    return bad;
}
''', "two properties with different modes, the stronger one second", "the combined value depends on the order of the two")

S("s15", "C13", [("include/Simu/physics/Transform.hpp", "        set(theta() + other.theta());\n", "        theta_ += other.theta_;\n        float c = cosine * other.cosine - sine * other.sine;\n        sine    = sine * other.cosine + cosine * other.sine;\n        if (this == &other)\n            sine = sine / 2.f;\n        cosine = c;\n")],
  r'''
int main()
{
    Rotation r{0.7f};
    r *= r;
    Vec2 v = r * Vec2{1, 0};
    EXPECT(std::abs(v[0] - std::cos(1.4f)) < 1e-4f);
    EXPECT(std::abs(v[1] - std::sin(1.4f)) < 1e-4f);
    return bad;
}
''', "a rotation composed with itself in place", "the rotation does not keep lengths")
SEEDS[-1]["edits"] = [("include/Simu/physics/Transform.hpp", "        set(theta() + other.theta());\n", "        const float c = cosine;\n        theta_ += other.theta_;\n        cosine = c * other.cosine - sine * other.sine;\n        sine   = sine * other.cosine + c * other.sine;\n")]

S("s19", "C12", [(MI, "(x[1] * solver.A_(0, 1) - b[0] >= 0)", "(b[1] * solver.A_(0, 1) - b[0] >= 0)")],
  r'''
int main()
{
    unsigned seed = 7;
    auto rnd = [&]() { seed = seed * 1664525u + 1013904223u; return float((seed >> 8) % 2000) / 500.f - 2.f; };
    for (int i = 0; i < 5000; ++i)
    {
        Mat2 L{rnd(), rnd(), rnd(), rnd()};
        Mat2 A = L * transpose(L) + 0.1f * Mat2::identity();
        Vec2 b{rnd(), rnd()};
        Vec2 x = solveLcp(A, b);
        Vec2 r = A * x - b;
        if (!(x[0] >= -1e-3f && x[1] >= -1e-3f && r[0] >= -1e-2f && r[1] >= -1e-2f))
            bad = 1;
    }
    EXPECT(!bad);
    return bad;
}
''', "a two-contact problem in which only the second one pushes and the effective mass is not one", "the solution lets the first residual become negative")

S("s20", "C11", [(MH, "    inline Matrix& operator*=(U scalar);", "    inline Matrix& operator*=(const U& scalar);"), (MI, "Matrix<T, m, n>& Matrix<T, m, n>::operator*=(U scalar)", "Matrix<T, m, n>& Matrix<T, m, n>::operator*=(const U& scalar)")],
  r'''
int main()
{
    Vec3 v{2.f, 3.f, 4.f};
    v *= v[0];
    EXPECT(all(v == Vec3{4.f, 6.f, 8.f}));
    return bad;
}
''', "scaling a vector in place by one of its own elements", "the elements after it are scaled by the already scaled element")

S("s21", "C16", [(CO, 'SIMU_ASSERT(density > 0.f, "Must have a positive density");', 'SIMU_ASSERT(density != 0.f, "Must have a positive density");')],
  r'''
int main()
{
    World w;
    Body* b = w.makeBody(BodyDescriptor{});
    ColliderDescriptor d{box()};
    d.material.density = -1.f;
    bool thrown = false;
    try { b->addCollider(d); } catch (const Exception&) { thrown = true; }
    EXPECT(thrown);
    return bad;
}
''', "a collider described with a negative density", "a body gets a negative mass instead of the description being refused")

S("s22", "C17", [("include/Simu/physics/CombinableProperty.hpp", "    Mode  mode;\n    float value;", "    float value;\n    Mode  mode;")],
  r'''
#include <new>
int main()
{
    typedef CombinableProperty P;
    for (int m = 0; m < 4; ++m)
    {
        alignas(P) static unsigned char mem[sizeof(P)];
        volatile unsigned char* q = mem;
        for (unsigned i = 0; i < sizeof(P); ++i) q[i] = 0x7f;
        P a{2.f, P::Mode(m)}, b{4.f, P::Mode(m)};
        P* p = new (mem) P(a, b);
        float want[] = {3.f, 2.f, 8.f, 4.f};
        EXPECT(p->value == want[m]);
    }
    return bad;
}
''', "two properties combined where the memory did not happen to hold the right mode before", "the value is combined by a mode that has no value yet")
SEEDS[-1]["demo_sh"] = sh_demo("-O0 -fno-lifetime-dse")

S("s23", "C24", [(W, "    for (auto& contact : contacts_)\n    {\n        ContactStatus& cs = contact.second;\n        if (!cs.hit", "    if (profiler_.treeHeight == 0)\n        return; // empty tree, nothing can touch\n\n    for (auto& contact : contacts_)\n    {\n        ContactStatus& cs = contact.second;\n        if (!cs.hit")],
  r'''
int main()
{
    World w;
    Body* a = mk(w, Vec2{0, 0}, 0.f);
    Body* b = mk(w, Vec2{0.9f, 0});
    (void)a;
    w.step(0.001f);
    int n = 0;
    for (auto* c : b->contacts()) { (void)c; ++n; }
    EXPECT(n == 1);
    b->setVelocity(Vec2{1000.f, 0});
    w.step(0.1f);
    w.step(0.1f);
    w.step(0.1f);
    n = 0;
    for (auto* c : b->contacts()) { (void)c; ++n; }
    EXPECT(n == 0);
    return bad;
}
''', "the library compiled without its profiler", "contacts of bodies that parted are kept forever in that configuration")
SEEDS[-1]["demo_sh"] = sh_demo("-O1 -DSIMU_NO_PROFILER")

S("s24", "C14", [("include/Simu/physics/ConstraintFunction.hpp", "            worldPoints[1] - proxies[1].centroid(),", "            worldPoints[1] - proxies[1].position(),")],
  r'''
int main()
{
    World w;
    Body* a = mk(w, Vec2{0, 0}, 0.f);
    Body* b = w.makeBody(BodyDescriptor{});
    b->addCollider(ColliderDescriptor{box(1.f, 1.f, Vec2{3, 0})});
    w.makeConstraint<HingeConstraint>(Bodies{a, b}, Vec2{1, 0});
    b->setAngularVelocity(1.f);
    b->setVelocity(Vec2{0.f, 2.f});     // turns about (1, 0)
    w.step(0.001f);
    EXPECT(norm(b->velocity() - Vec2{0.f, 2.f}) < 0.05f);
    EXPECT(std::abs(b->angularVelocity() - 1.f) < 0.05f);
    return bad;
}
''', "a hinged body whose colliders are not centred on its position", "the hinge resists the rotation it should allow")

S("s25", "C26", [("include/Simu/physics/Island.hpp", "        for (Uint32 iter = 0; iter < nIter; ++iter)\n        {\n            for (Constraint* constraint : constraints_)\n                constraint->solveVelocities(constraint->bodies().getProxies(), dt);\n", "        // sweep in alternating directions, errors even out\n        static bool backwards = true;\n        backwards             = !backwards;\n        const std::size_t n   = constraints_.size();\n\n        for (Uint32 iter = 0; iter < nIter; ++iter)\n        {\n            for (std::size_t i = 0; i < n; ++i)\n            {\n                Constraint* constraint = constraints_[backwards ? n - 1 - i : i];\n                constraint->solveVelocities(constraint->bodies().getProxies(), dt);\n            }\n")],
  r'''
static Vec2 run(int steps)
{
    World w;
    Body* a = mk(w, Vec2{0, 0}, 1.f);
    Body* b = mk(w, Vec2{2, 0}, 1.f);
    Body* c = mk(w, Vec2{4, 0.5f}, 1.f);
    w.makeConstraint<HingeConstraint>(Bodies{a, b}, Vec2{1, 0});
    w.makeConstraint<HingeConstraint>(Bodies{b, c}, Vec2{3, 0.25f});
    a->setVelocity(Vec2{3.f, 5.f});
    c->setAngularVelocity(4.f);
    for (int i = 0; i < steps; ++i)
        w.step(0.02f);
    return c->position();
}

int main()
{
    Vec2 first = run(3), second = run(3), third = run(3);
    EXPECT(first[0] == second[0] && first[1] == second[1]);
    EXPECT(first[0] == third[0] && first[1] == third[1]);
    return bad;
}
''', "a second world in the same process, with several constraints in one island", "the same simulation gives other results the second time")
