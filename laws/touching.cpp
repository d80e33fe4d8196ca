#include "laws.hpp"

namespace laws
{
inline float along(Vec2 a, Vec2 b) { return a[0] * b[0] + a[1] * b[1]; }
typedef std::vector<Vec2, Collider::Alloc> Vertices;
// what the search between two shapes answers
extern Vec2 overlap;
inline void searched(Gjk<Collider>& g) {}
inline Vec2 answered(const Gjk<Collider>& g) { return overlap; }

template <Uint32 ref>
struct Ref
{
};
// a square and a shape lying askew on its upper side, their bodies posed anyhow
struct Lie
{
    ContactManifold m;
    Lie(Collider& sq, Collider& tri, Body& b, Body& o, const ContactManifold& k, float p, Uint32 ref)
        : m{k}
    {
        sq.transformed_ = Vertices{Vec2{1.f, 1.f}, Vec2{-1.f, 1.f}, Vec2{-1.f, -1.f}, Vec2{1.f, -1.f}};
        tri.transformed_ = Vertices{Vec2{-0.5f, 0.75f}, Vec2{0.5f, p}, Vec2{0.f, 5.f}};
        sq.boundingBox_  = BoundingBox{Vec2{-1.f, -1.f}, Vec2{1.f, 1.f}};
        tri.boundingBox_ = BoundingBox{Vec2{-0.5f, 0.5f}, Vec2{0.5f, 5.f}};
        sq.body_         = &b;
        tri.body_        = &o;
        m.colliders_[ref]     = &sq;
        m.colliders_[1 - ref] = &tri;
        m.nContacts_          = 0;
    }
};
template <Uint32 ref>
void law_touching__reference(Collider sq, Collider tri, Body& b, Body& o, ContactManifold k, float d, Ref<ref>)
{
    given(d > 0.f);
    given(k.minPen_ > 0.f);
    given(k.minPen_ < d);
    given(overlap[0] == 0.f);
    given(overlap[1] == (ref == 0 ? d : -d));
    b.position_ = Position{Vec2{3.f, 1.f}, 0.f, Vec2{0.f, 0.f}};
    o.position_ = Position{Vec2{-1.f, 2.f}, 0.f, Vec2{0.f, 0.f}};
    Lie l{sq, tri, b, o, k, 0.8f, ref};
    l.m.update();
    holds(l.m.nContacts_ == 2);
    holds(l.m.referenceIndex_ == ref);
    equal(l.m.contactNormal_, Vec2{0.f, 1.f});
    for (Uint32 c = 0; c < 2; ++c)
    {
        equal(l.m.contacts_[ref][c][1], 0.f);
        Vec2 u = l.m.contacts_[1 - ref][c];
        equal(u[1] + 1.25f, (u[0] - 0.5f) * 0.05f);
        equal(l.m.contacts_[ref][c][0] + 3.f, u[0] - 1.f);
    }
}
// the normal and the points are kept in the frames of their bodies
template <Uint32 ref>
void law_touching__local(Collider sq, Collider tri, Body& b, Body& o, ContactManifold k, Ref<ref>)
{
    given(k.minPen_ > 0.f);
    given(k.minPen_ < 1.f);
    given(overlap[0] == 0.f);
    given(overlap[1] == (ref == 0 ? 1.f : -1.f));
    Lie l{sq, tri, b, o, k, 0.8f, ref};
    l.m.update();
    equal(b.toWorldSpace().rotation() * l.m.contactNormal_, Vec2{0.f, 1.f});
    equal((b.toWorldSpace() * l.m.contacts_[ref][0])[1], 1.f);
    Vec2 u = o.toWorldSpace() * l.m.contacts_[1 - ref][0];
    equal(u[1] - 0.75f, (u[0] + 0.5f) * 0.05f);
}
template <Uint32 ref>
void law_touching__shallow(Collider sq, Collider tri, Body& b, Body& o, ContactManifold k, Ref<ref>)
{
    given(along(overlap, overlap) < k.minPen_ * k.minPen_);
    Lie l{sq, tri, b, o, k, 0.8f, ref};
    l.m.nContacts_ = 2;
    l.m.update();
    holds(l.m.nContacts_ == 0);
}
template <Uint32 ref>
void law_touching__apart(Collider sq, Collider tri, Body& b, Body& o, ContactManifold k, Ref<ref>)
{
    Lie l{sq, tri, b, o, k, 0.8f, ref};
    tri.boundingBox_ = BoundingBox{Vec2{-0.5f, 1.5f}, Vec2{0.5f, 5.f}};
    l.m.nContacts_   = 2;
    l.m.update();
    holds(l.m.nContacts_ == 0);
}
inline void law_touching__tolerance(const Collider& a, const Collider& b)
{
    Collider x = a, y = b;
    x.boundingBox_ = BoundingBox{Vec2{0.f, 0.f}, Vec2{1.f, 1.f}};
    y.boundingBox_ = BoundingBox{Vec2{2.f, 2.f}, Vec2{3.f, 3.f}};
    ContactManifold m{x, y};
    holds(m.nContacts_ == 0);
    equal(m.minPen_, CombinableProperty{a.material_.penetration, b.material_.penetration}.value);
    holds(m.colliders_[0] == &x);
    holds(m.colliders_[1] == &y);
}
inline void use_touching(const Collider& c, Body& b, const ContactManifold& k)
{
    law_touching__reference(c, c, b, b, k, 1.f, Ref<0>{});
    law_touching__reference(c, c, b, b, k, 1.f, Ref<1>{});
    law_touching__local(c, c, b, b, k, Ref<0>{});
    law_touching__local(c, c, b, b, k, Ref<1>{});
    law_touching__shallow(c, c, b, b, k, Ref<0>{});
    law_touching__shallow(c, c, b, b, k, Ref<1>{});
    law_touching__apart(c, c, b, b, k, Ref<0>{});
    law_touching__apart(c, c, b, b, k, Ref<1>{});
}
} // namespace laws
