#include "laws.hpp"

namespace laws
{
inline float along(Vec2 a, Vec2 b) { return a[0] * b[0] + a[1] * b[1]; }
// what the next look at the colliders finds
struct Next
{
    Uint32 n;
    Uint32 ref;
    Vec2   normal;
    Vec2   p[2][2];
};
extern Next next;
inline void updated(ContactManifold& m)
{
    m.nContacts_     = next.n;
    m.contactNormal_ = next.normal;
    for (Uint32 b = 0; b < 2; ++b)
        for (Uint32 k = 0; k < 2; ++k)
            m.contacts_[b][k] = next.p[b][k];
}
template <Uint32 before, Uint32 after>
struct Change
{
};
// what a renewed manifold does to the impulses found so far
template <Uint32 before, Uint32 after>
void law_renewal__impulses(ContactConstraint c, Change<before, after>)
{
    given(c.manifold_.nContacts_ == before);
    given(next.n == after);
    Vec2 l = c.normalLambda_, f = c.tangentLambda_;
    for (auto b : c.bodies())
        const_cast<Body*>(b)->position_ = Position{Vec2{0.f, 0.f}, 0.f, Vec2{0.f, 0.f}};
    auto g = c.manifold_.frameManifold(c.bodies());
    if (before != 0)
    {
        float t = along(g.contacts[0][0] - g.contacts[1][0], g.tangent);
        given(t * t > c.manifold_.minPen_ * c.manifold_.minPen_);
    }
    c.updateContacts();
    holds(c.frame_.nContacts == after);
    if (after != 0)
        equal(c.tangentLambda_, Vec2{0.f, 0.f});
    if (before == 0)
        equal(c.normalLambda_, Vec2{0.f, 0.f});
    else if (before == 1 && after == 2)
    {
        equal(c.normalLambda_[0] + c.normalLambda_[1], l[0]);
        equal(c.normalLambda_[0], c.normalLambda_[1]);
    }
    else if (before == 2 && after == 1)
    {
        equal(c.normalLambda_[0], l[0] + l[1]);
        equal(c.normalLambda_[1], 0.f);
    }
    else if (after != 0)
        equal(c.normalLambda_, l);
}
// afterwards the frame is the manifold's
template <Uint32 before, Uint32 after>
void law_renewal__frame(ContactConstraint c, Change<before, after>)
{
    given(c.manifold_.nContacts_ == before);
    given(next.n == after);
    c.updateContacts();
    auto f = c.manifold_.frameManifold(c.bodies());
    holds(c.frame_.nContacts == c.manifold_.nContacts_);
    equal(c.frame_.normal, f.normal);
    equal(c.frame_.tangent, f.tangent);
    for (Uint32 k = 0; k < before && k < after; ++k)
    {
        equal(c.frame_.contacts[0][k], f.contacts[0][k]);
        equal(c.frame_.contacts[1][k], f.contacts[1][k]);
    }
}
// when it is renewed
template <Uint32 n>
struct Points
{
};
template <Uint32 n>
struct Seen
{
    Vec2 was, gap[2], normal, tangent;
    Seen(ContactConstraint& c)
    {
        given(c.manifold_.nContacts_ == n);
        given(c.manifold_.minPen_ > 0.f);
        given(next.n == n);
        auto f  = c.manifold_.frameManifold(c.bodies());
        normal  = f.normal;
        tangent = f.tangent;
        was     = c.manifold_.contactNormal_;
        for (Uint32 k = 0; k < n; ++k)
            gap[k] = f.contacts[0][k] - f.contacts[1][k];
    }
};
inline void law_renewed__none(ContactConstraint c)
{
    Seen<0> s{c};
    c.updateContacts();
    equal(c.manifold_.contactNormal_, next.normal);
}
template <Uint32 n>
void law_renewed__slid(ContactConstraint c, Points<n>)
{
    Seen<n> s{c};
    float t = along(s.gap[n - 1], s.tangent);
    given(t * t > c.manifold_.minPen_ * c.manifold_.minPen_);
    c.updateContacts();
    equal(c.manifold_.contactNormal_, next.normal);
}
template <Uint32 n>
void law_renewed__rose(ContactConstraint c, Points<n>)
{
    Seen<n> s{c};
    given(along(s.gap[n - 1], s.normal) > c.manifold_.minPen_);
    c.updateContacts();
    equal(c.manifold_.contactNormal_, next.normal);
}
template <Uint32 n, Uint32 ref>
struct Held
{
};
// the furthest vertex of the incident shape against the contact's direction
template <Uint32 ref>
Vec2 nearest(const ContactConstraint& c, Vec2 normal)
{
    Vec2 out = ref == 0 ? -normal : normal;
    return furthestVertexInDirection(*c.manifold_.colliders_[1 - ref], -out);
}
template <Uint32 n, Uint32 ref>
void law_renewed__kept(ContactConstraint c, Held<n, ref>)
{
    given(c.manifold_.referenceIndex_ == ref);
    Seen<n> s{c};
    float   m = c.manifold_.minPen_;
    Vec2    l = c.normalLambda_, f = c.tangentLambda_;
    auto    fr = c.manifold_.frameManifold(c.bodies());
    for (Uint32 k = 0; k < n; ++k)
    {
        given(along(s.gap[k], s.normal) <= m);
        given(along(s.gap[k], s.tangent) * along(s.gap[k], s.tangent) <= m * m);
    }
    Vec2 v = nearest<ref>(c, s.normal);
    given(fr.contacts[1 - ref][n - 1][0] == v[0]);
    given(fr.contacts[1 - ref][n - 1][1] == v[1]);
    c.updateContacts();
    equal(c.manifold_.contactNormal_, s.was);
    equal(c.normalLambda_, l);
    equal(c.tangentLambda_, f);
}
template <Uint32 n, Uint32 ref>
void law_renewed__new_vertex(ContactConstraint c, Held<n, ref>)
{
    given(c.manifold_.referenceIndex_ == ref);
    Seen<n> s{c};
    auto    fr = c.manifold_.frameManifold(c.bodies());
    Vec2 v = nearest<ref>(c, s.normal);
    for (Uint32 k = 0; k < n; ++k)
        given(fr.contacts[1 - ref][k][0] != v[0]);
    c.updateContacts();
    equal(c.manifold_.contactNormal_, next.normal);
}
inline void use_refresh(const ContactConstraint& c)
{
    law_renewal__impulses(c, Change<0, 1>{});
    law_renewal__impulses(c, Change<0, 2>{});
    law_renewal__impulses(c, Change<1, 1>{});
    law_renewal__impulses(c, Change<1, 2>{});
    law_renewal__impulses(c, Change<2, 1>{});
    law_renewal__impulses(c, Change<2, 2>{});
    law_renewal__frame(c, Change<0, 1>{});
    law_renewal__frame(c, Change<0, 2>{});
    law_renewal__frame(c, Change<2, 2>{});
    law_renewal__frame(c, Change<1, 1>{});
    law_renewed__slid(c, Points<1>{});
    law_renewed__slid(c, Points<2>{});
    law_renewed__rose(c, Points<1>{});
    law_renewed__rose(c, Points<2>{});
    law_renewed__kept(c, Held<1, 0>{});
    law_renewed__kept(c, Held<1, 1>{});
    law_renewed__kept(c, Held<2, 0>{});
    law_renewed__kept(c, Held<2, 1>{});
    law_renewed__new_vertex(c, Held<1, 0>{});
    law_renewed__new_vertex(c, Held<1, 1>{});
    law_renewed__new_vertex(c, Held<2, 0>{});
    law_renewed__new_vertex(c, Held<2, 1>{});
}
} // namespace laws
