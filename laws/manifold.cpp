#include "laws.hpp"

namespace laws
{
inline float along(Vec2 a, Vec2 b) { return a[0] * b[0] + a[1] * b[1]; }
inline float turn(Vec2 a, Vec2 b, Vec2 c)
{
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
}
typedef std::vector<Vec2, Collider::Alloc> Vertices;
inline void shape(Collider& c, std::initializer_list<Vec2> v) { c.transformed_ = Vertices(v); }

// ---- the touching edge holds the furthest vertex and faces the direction most
inline void law_contact_edge__faces(Collider c, Vec2 d)
{
    shape(c, {Vec2{0.f, 0.f}, Vec2{4.f, 0.f}, Vec2{0.f, 3.f}});
    auto e = ContactManifold::computeContactEdge(c, d);
    Vec2 n = e.normalizedNormal();
    for (auto f : edgesOf(c))
    {
        bool touches = along(f.to(), d) >= along(e.to(), d) && along(f.to(), d) >= along(e.from(), d);
        touches      = touches || (along(f.from(), d) >= along(e.to(), d) && along(f.from(), d) >= along(e.from(), d));
        holds(!touches || along(f.normalizedNormal(), d) <= along(n, d) || along(d, d) == 0.f);
    }
}
template <Uint32 ref>
struct Ref {};
// ---- contacts of an edge lying on the upper side of a square
struct Lying
{
    ContactManifold m;
    Lying(Collider& sq, Collider& tri, ContactManifold& k, Vec2 a, Vec2 b, Uint32 ref)
        : m{k}
    {
        shape(sq, {Vec2{1.f, 1.f}, Vec2{-1.f, 1.f}, Vec2{-1.f, -1.f}, Vec2{1.f, -1.f}});
        shape(tri, {a, b, Vec2{0.f, 5.f}});
        m.colliders_[ref]     = &sq;
        m.colliders_[1 - ref] = &tri;
        m.referenceIndex_     = ref;
        m.nContacts_          = 0;
        m.contactNormal_      = Vec2{0.f, 1.f};
        auto re = edgesOf(sq).begin();
        ++re;
        auto ie = edgesOf(tri).begin();
        ++ie;
        m.computeContacts(ref == 0 ? std::array<ContactManifold::Edge, 2>{*re, *ie} : std::array<ContactManifold::Edge, 2>{*ie, *re});
    }
};
template <Uint32 ref>
void law_contacts__kept(Collider sq, Collider tri, ContactManifold k, float p, float q, Ref<ref>)
{
    Lying l{sq, tri, k, Vec2{-0.5f, p}, Vec2{0.5f, q}, ref};
    holds((l.m.nContacts() == 2) == (p <= 1.f && q <= 1.f));
    holds((l.m.nContacts() == 0) == (p > 1.f && q > 1.f));
}
template <Uint32 ref>
void law_contacts__inside(Collider sq, Collider tri, ContactManifold k, float p, float q, Ref<ref>)
{
    given(p < 1.f);
    given(q < 1.f);
    Lying l{sq, tri, k, Vec2{-0.5f, p}, Vec2{0.5f, q}, ref};
    // the two ends, each with its foot on the reference edge
    auto& i = l.m.contacts_[1 - ref];
    auto& r = l.m.contacts_[ref];
    holds(l.m.nContacts() == 2);
    equal(i[0][0] + i[1][0], 0.f);
    equal(i[0][1] + i[1][1], p + q);
    for (Uint32 c = 0; c < 2; ++c)
    {
        equal(turn(Vec2{-0.5f, p}, Vec2{0.5f, q}, i[c]), 0.f);
        equal(r[c][0], i[c][0]);
        equal(r[c][1], 1.f);
    }
}
template <Uint32 ref>
void law_contacts__clipped(Collider sq, Collider tri, ContactManifold k, float y, float s, Ref<ref>)
{
    given(s > -1.f);
    given(s < 1.f);
    given(y < 1.f);
    Lying l{sq, tri, k, Vec2{-2.f + s, y}, Vec2{2.f + s, y}, ref};
    auto& i = l.m.contacts_[1 - ref];
    auto& r = l.m.contacts_[ref];
    holds(l.m.nContacts() == 2);
    equal(i[0][0] + i[1][0], 0.f);
    for (Uint32 c = 0; c < 2; ++c)
    {
        equal(i[c][0] * i[c][0], 1.f);
        equal(i[c][1], y);
        equal(r[c][0], i[c][0]);
        equal(r[c][1], 1.f);
    }
}
template <Uint32 ref>
void law_contacts__single(Collider sq, Collider tri, ContactManifold k, float y, float z, Ref<ref>)
{
    given(z > 1.f);
    given(y < 1.f);
    Lying l{sq, tri, k, Vec2{-0.5f, y}, Vec2{0.5f, z}, ref};
    auto& i = l.m.contacts_[1 - ref];
    auto& r = l.m.contacts_[ref];
    holds(l.m.nContacts() == 1);
    equal(i[0], Vec2{-0.5f, y});
    equal(r[0], Vec2{-0.5f, 1.f});
}
// ---- indices
template <Uint32 ref>
void law_indices__differ(ContactManifold m, Ref<ref>)
{
    given(m.referenceIndex_ == ref);
    holds(m.referenceIndex() + m.incidentIndex() == 1u);
}
template <Uint32 ref>
void each()
{
    Collider& c = *(Collider*)0;
    ContactManifold& m = *(ContactManifold*)0;
    law_contacts__kept(c, c, m, 0.f, 0.f, Ref<ref>{});
    law_contacts__inside(c, c, m, 0.f, 0.f, Ref<ref>{});
    law_contacts__clipped(c, c, m, 0.f, 0.f, Ref<ref>{});
    law_contacts__single(c, c, m, 0.f, 0.f, Ref<ref>{});
    law_indices__differ(m, Ref<ref>{});
}
inline void instances()
{
    each<0>();
    each<1>();
}
} // namespace laws
