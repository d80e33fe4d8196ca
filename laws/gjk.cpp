#include "laws.hpp"

namespace laws
{
inline float along(Vec2 a, Vec2 b) { return a[0] * b[0] + a[1] * b[1]; }
inline float turn(Vec2 a, Vec2 b, Vec2 c)
{
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
}
typedef priv::Simplex Simplex;
typedef priv::Polytope Polytope;
inline Simplex pushed(Vec2 d, Vec2 a, Vec2 b, Vec2 c)
{
    Simplex s{d};
    s.pushPoint(a);
    s.pushPoint(b);
    s.pushPoint(c);
    return s;
}
inline bool same(Vec2 a, Vec2 b) { return a[0] == b[0] && a[1] == b[1]; }

// ---- which triangles hold the origin
inline void law_simplex__contains(Vec2 d, Vec2 a, Vec2 b, Vec2 c)
{
    float o = turn(a, b, c);
    given(o != 0.f);
    Simplex s = pushed(d, a, b, c);
    Vec2 z{0.f, 0.f};
    float p = turn(a, b, z), q = turn(b, c, z), r = turn(c, a, z);
    holds(s.containsOrigin() == (o > 0.f ? p >= 0.f && q >= 0.f && r >= 0.f : p <= 0.f && q <= 0.f && r <= 0.f));
}
inline void law_simplex__no_false_hit(Vec2 d, Vec2 a, Vec2 b, Vec2 c)
{
    given(turn(a, b, c) == 0.f);
    given(turn(a, b, Vec2{0.f, 0.f}) > 0.f);
    holds(!pushed(d, a, b, c).containsOrigin());
}
// ---- the search
inline void law_search__first(Vec2 d, Vec2 a)
{
    Simplex s{d};
    Vec2 f = s.nextDirection();
    holds(f[0] != 0.f || f[1] != 0.f);
    if (d[0] != 0.f || d[1] != 0.f)
        equal(f, d);
}
inline void law_search__second(Vec2 d, Vec2 a)
{
    given(d[0] != 0.f || d[1] != 0.f);
    Simplex s{d};
    s.pushPoint(a);
    Vec2 f = s.nextDirection();
    holds(f[0] != 0.f || f[1] != 0.f);
    if (along(d, a) > 0.f)
        holds(along(f, a) < 0.f);
    else
        holds(along(f, d) < 0.f);
}
inline void law_search__third(Vec2 d, Vec2 a, Vec2 b)
{
    Simplex s{d};
    s.pushPoint(a);
    s.pushPoint(b);
    Vec2 f  = s.nextDirection();
    float k = a[0] * b[1] - a[1] * b[0];
    given(k != 0.f);
    equal(along(f, b - a), 0.f);
    holds(along(f, a) < 0.f);
}
inline void law_search__flat(Vec2 d, Vec2 a, Vec2 b)
{
    given(d[0] != 0.f || d[1] != 0.f);
    given(a[0] * b[1] - a[1] * b[0] == 0.f);
    Simplex s{d};
    s.pushPoint(a);
    s.pushPoint(b);
    Vec2 f = s.nextDirection();
    holds(f[0] != 0.f || f[1] != 0.f);
    equal(along(f, d), 0.f);
}
// from a triangle the search leaves through an edge that has the origin outside
inline void law_search__outwards(Vec2 d, Vec2 a, Vec2 b, Vec2 c)
{
    Vec2 z{0.f, 0.f};
    float o = turn(a, b, c);
    given(o > 0.f);
    given(turn(a, b, z) >= 0.f);
    given(turn(b, c, z) < 0.f || turn(c, a, z) < 0.f);
    Simplex s = pushed(d, a, b, c);
    Vec2 f    = s.nextDirection();
    holds(along(f, c) < 0.f);
    holds(along(f, a) <= along(f, c));
    holds(along(f, b) <= along(f, c));
}
inline void law_search__outwards_clockwise(Vec2 d, Vec2 a, Vec2 b, Vec2 c)
{
    Vec2 z{0.f, 0.f};
    float o = turn(a, b, c);
    given(o < 0.f);
    given(turn(a, b, z) <= 0.f);
    given(turn(b, c, z) > 0.f || turn(c, a, z) > 0.f);
    Simplex s = pushed(d, a, b, c);
    Vec2 f    = s.nextDirection();
    holds(along(f, c) < 0.f);
    holds(along(f, a) <= along(f, c));
    holds(along(f, b) <= along(f, c));
}
// and keeps that edge when the next point comes
inline void law_search__keeps_edge(Vec2 d, Vec2 a, Vec2 b, Vec2 c, Vec2 v)
{
    given(turn(a, b, c) != 0.f);
    Simplex s = pushed(d, a, b, c);
    Vec2 f    = s.nextDirection();
    s.pushPoint(v);
    holds(same(s.pointStack[0], v));
    float h = along(f, c);
    equal(along(f, s.pointStack[1]), h);
    equal(along(f, s.pointStack[2]), h);
    holds(same(s.pointStack[1], c) || same(s.pointStack[2], c));
    holds(!same(s.pointStack[1], s.pointStack[2]));
}
inline void law_search__remembers(Vec2 d, Vec2 a, Vec2 b, Vec2 c, Vec2 v)
{
    Simplex s{d};
    holds(!s.hasPoint(v));
    s.pushPoint(a);
    holds(s.hasPoint(v) == same(v, a));
    s.pushPoint(b);
    holds(s.hasPoint(v) == (same(v, a) || same(v, b)));
    s.pushPoint(c);
    holds(s.hasPoint(v) == (same(v, a) || same(v, b) || same(v, c)));
    holds(s.nIterations == 3);
}
inline void law_search__asks_twice(Vec2 d, Vec2 a, Vec2 b, Vec2 c)
{
    Simplex s = pushed(d, a, b, c);
    Vec2 f    = s.nextDirection();
    equal(s.nextDirection(), f);
}
// ---- the expanding polytope
inline void law_polytope__counterclockwise(Vec2 d, Vec2 a, Vec2 b, Vec2 c)
{
    Polytope p{pushed(d, a, b, c)};
    holds(p.vertices.size() == 3);
    holds(turn(p.vertices[0], p.vertices[1], p.vertices[2]) >= 0.f);
    equal(p.vertices[0][0] + p.vertices[1][0] + p.vertices[2][0], a[0] + b[0] + c[0]);
    equal(p.vertices[0][1] * p.vertices[1][1] * p.vertices[2][1], a[1] * b[1] * c[1]);
}
template <int at>
struct At {};
template <int at>
void law_polytope__grows(Vec2 d, Vec2 a, Vec2 b, Vec2 c, Vec2 v, At<at>)
{
    given(turn(c, b, a) > 0.f);
    given(v[0] != a[0]);
    given(v[0] != b[0]);
    given(v[1] != c[1]);
    Polytope p{pushed(d, a, b, c)};
    auto e = edgesOf(p.vertices).begin();
    for (int i = 0; i < at; ++i)
        ++e;
    Vec2 from = (*e).from(), to = (*e).to();
    given(turn(from, to, v) < 0.f);
    Vec2 last{a[0] + b[0] + c[0] - from[0] - to[0], a[1] + b[1] + c[1] - from[1] - to[1]};
    holds(p.addVertex(*e, v));
    holds(p.vertices.size() == 4);
    // the same cycle with the new vertex between the ends of the edge
    bool found = false;
    for (int k = 0; k < 4; ++k)
        found = found || (same(p.vertices[k], v) && same(p.vertices[(k + 3) % 4], from) && same(p.vertices[(k + 1) % 4], to) && same(p.vertices[(k + 2) % 4], last));
    holds(found);
}
template <int at>
void law_polytope__complete(Vec2 d, Vec2 a, Vec2 b, Vec2 c, Vec2 v, At<at>)
{
    given(turn(c, b, a) > 0.f);
    Polytope p{pushed(d, a, b, c)};
    auto e = edgesOf(p.vertices).begin();
    for (int i = 0; i < at; ++i)
        ++e;
    given(turn((*e).from(), (*e).to(), v) >= 0.f);
    Vec2 was[3] = {p.vertices[0], p.vertices[1], p.vertices[2]};
    holds(!p.addVertex(*e, v));
    holds(p.vertices.size() == 3);
    for (int i = 0; i < 3; ++i)
        equal(p.vertices[i], was[i]);
}
template <int at>
void law_polytope__known(Vec2 d, Vec2 a, Vec2 b, Vec2 c, At<at>)
{
    Polytope p{pushed(d, a, b, c)};
    auto e = edgesOf(p.vertices).begin();
    Vec2 v = p.vertices[at];
    holds(!p.addVertex(*e, v));
    holds(p.vertices.size() == 3);
}
// ---- answers
typedef Gjk<Polygon> G;
inline void law_answer__no_separation(G g)
{
    given(g.areColliding_);
    equal(g.separation(), Vec2{0.f, 0.f});
}
inline void law_answer__no_penetration(G g)
{
    given(!g.areColliding_);
    equal(g.penetration(), Vec2{0.f, 0.f});
}
template <int at, int lean>
void law_answer__nearest_edge(G g, At<at>, At<lean>)
{
    given(g.areColliding_);
    Vec2 a{lean < 0 ? -5.f : -9.f, -1.f}, b{lean < 0 ? 9.f : 5.f, -1.f}, c{0.f, 11.f};
    g.simplex_.pointStack[at]           = a;
    g.simplex_.pointStack[(at + 1) % 3] = b;
    g.simplex_.pointStack[(at + 2) % 3] = c;
    // no edge can be moved outwards: whichever one is taken, the search is over
    given(turn(a, b, g.furthestVertexInDirection(perp(b - a, true))) >= 0.f);
    given(turn(b, c, g.furthestVertexInDirection(perp(c - b, true))) >= 0.f);
    given(turn(c, a, g.furthestVertexInDirection(perp(a - c, true))) >= 0.f);
    equal(g.penetration(), Vec2{0.f, -1.f});
}
// the separation is from the point nearest to the origin
inline void law_answer__nearest_point(G g, float h)
{
    given(!g.areColliding_);
    given(h > 0.f);
    Vec2 a{3.f, h}, b{-3.f, h};
    g.simplex_.nIterations   = 2;
    g.simplex_.pointStack[0] = b;
    g.simplex_.pointStack[1] = a;
    Vec2 f = g.furthestVertexInDirection(g.simplex_.nextDirection());
    given(f[0] == a[0]);
    given(f[1] == a[1]);
    equal(g.separation(), Vec2{0.f, -h});
}
inline void use_gjk()
{
    Vec2 v;
    law_polytope__grows<0>(v, v, v, v, v, At<0>{});
    law_polytope__grows<1>(v, v, v, v, v, At<1>{});
    law_polytope__grows<2>(v, v, v, v, v, At<2>{});
    law_polytope__complete<0>(v, v, v, v, v, At<0>{});
    law_polytope__known<0>(v, v, v, v, At<0>{});
    law_answer__nearest_edge<0, 1>(*(G*)0, At<0>{}, At<1>{});
    law_answer__nearest_edge<0, -1>(*(G*)0, At<0>{}, At<-1>{});
    law_polytope__complete<1>(v, v, v, v, v, At<1>{});
    law_polytope__known<1>(v, v, v, v, At<1>{});
    law_answer__nearest_edge<1, 1>(*(G*)0, At<1>{}, At<1>{});
    law_answer__nearest_edge<1, -1>(*(G*)0, At<1>{}, At<-1>{});
    law_polytope__complete<2>(v, v, v, v, v, At<2>{});
    law_polytope__known<2>(v, v, v, v, At<2>{});
    law_answer__nearest_edge<2, 1>(*(G*)0, At<2>{}, At<1>{});
    law_answer__nearest_edge<2, -1>(*(G*)0, At<2>{}, At<-1>{});
}
} // namespace laws
