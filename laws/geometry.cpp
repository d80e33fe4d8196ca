#include "laws.hpp"
#include "Simu/math/Gjk.hpp"

namespace laws
{
template <Uint32 n>
using Poly = std::array<Vec2, n>;

inline float turn(Vec2 a, Vec2 b, Vec2 c)
{
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
}
inline float along(Vec2 a, Vec2 b) { return a[0] * b[0] + a[1] * b[1]; }
inline float far2(Vec2 a, Vec2 b)
{
    return (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]);
}
// ---- intervals
inline void law_interval__contains(float lo, float hi, float x)
{
    holds(Interval<float>{lo, hi}.contains(x) == (lo <= x && x <= hi));
}
inline void law_interval__approx(float v, float e, float x)
{
    given(e >= 0.f);
    holds(approx(v, e).contains(x) == (v - e <= x && x <= v + e));
    holds(approx(v, -e).contains(x) == (v - e <= x && x <= v + e));
}
inline void law_interval_overlap__touches(float a, float b, float c, float d)
{
    given(a <= b);
    given(c <= d);
    bool o = Interval<float>{a, b}.overlaps(Interval<float>{c, d});
    holds(o == Interval<float>{c, d}.overlaps(Interval<float>{a, b}));
    holds(o == (a <= d && c <= b));
}
// ---- bounding boxes
inline void law_box__parts(Vec2 lo, Vec2 hi)
{
    BoundingBox b{lo, hi};
    for (Uint32 i = 0; i < 2; ++i)
    {
        equal(b.min()[i], lo[i]);
        equal(b.max()[i], hi[i]);
        equal(b.center()[i] * 2.f, lo[i] + hi[i]);
    }
    holds(b.isValid() == (lo[0] <= hi[0] && lo[1] <= hi[1]));
    holds(!BoundingBox{}.isValid());
}
inline void law_box_overlap__axes(Vec2 lo, Vec2 hi, Vec2 lo2, Vec2 hi2)
{
    given(lo[0] <= hi[0] && lo[1] <= hi[1] && lo2[0] <= hi2[0] && lo2[1] <= hi2[1]);
    holds(BoundingBox{lo, hi}.overlaps(BoundingBox{lo2, hi2})
          == (lo[0] <= hi2[0] && lo2[0] <= hi[0] && lo[1] <= hi2[1] && lo2[1] <= hi[1]));
}
inline void law_box_overlap__invalid(Vec2 lo, Vec2 hi, Vec2 lo2, Vec2 hi2)
{
    given(lo[0] > hi[0] || lo[1] > hi[1]);
    holds(!BoundingBox{lo, hi}.overlaps(BoundingBox{lo2, hi2}));
    holds(!BoundingBox{lo2, hi2}.overlaps(BoundingBox{lo, hi}));
    holds(!BoundingBox{lo, hi}.contains(BoundingBox{lo2, hi2}));
    holds(!BoundingBox{lo2, hi2}.contains(BoundingBox{lo, hi}));
}
inline void law_box_contains__corners(Vec2 lo, Vec2 hi, Vec2 lo2, Vec2 hi2)
{
    given(lo[0] <= hi[0] && lo[1] <= hi[1] && lo2[0] <= hi2[0] && lo2[1] <= hi2[1]);
    holds(BoundingBox{lo, hi}.contains(BoundingBox{lo2, hi2})
          == (lo[0] <= lo2[0] && lo[1] <= lo2[1] && hi2[0] <= hi[0] && hi2[1] <= hi[1]));
}
inline void law_box_combined__covers(Vec2 lo, Vec2 hi, Vec2 lo2, Vec2 hi2)
{
    given(lo[0] <= hi[0] && lo[1] <= hi[1] && lo2[0] <= hi2[0] && lo2[1] <= hi2[1]);
    BoundingBox c = BoundingBox{lo, hi}.combined(BoundingBox{lo2, hi2});
    for (Uint32 i = 0; i < 2; ++i)
    {
        equal(c.min()[i], lo[i] < lo2[i] ? lo[i] : lo2[i]);
        equal(c.max()[i], hi[i] < hi2[i] ? hi2[i] : hi[i]);
    }
}
inline void law_box_combined__ignores(Vec2 lo, Vec2 hi, Vec2 lo2, Vec2 hi2)
{
    given(lo[0] <= hi[0] && lo[1] <= hi[1]);
    given(lo2[0] > hi2[0] || lo2[1] > hi2[1]);
    BoundingBox c = BoundingBox{lo, hi}.combined(BoundingBox{lo2, hi2});
    BoundingBox d = BoundingBox{lo2, hi2}.combined(BoundingBox{lo, hi});
    for (Uint32 i = 0; i < 2; ++i)
    {
        equal(c.min()[i], lo[i]);
        equal(c.max()[i], hi[i]);
        equal(d.min()[i], lo[i]);
        equal(d.max()[i], hi[i]);
    }
}
inline void law_box_equality__corners(Vec2 lo, Vec2 hi, Vec2 lo2, Vec2 hi2)
{
    bool v = lo[0] <= hi[0] && lo[1] <= hi[1], w = lo2[0] <= hi2[0] && lo2[1] <= hi2[1];
    bool same = lo[0] == lo2[0] && lo[1] == lo2[1] && hi[0] == hi2[0] && hi[1] == hi2[1];
    holds((BoundingBox{lo, hi} == BoundingBox{lo2, hi2}) == ((!v && !w) || same));
    holds((BoundingBox{lo, hi} != BoundingBox{lo2, hi2}) == !((!v && !w) || same));
}
inline void law_box_scaled__about_center(Vec2 lo, Vec2 hi, float r)
{
    BoundingBox b{lo, hi};
    BoundingBox s = BoundingBox::scaled(b, r);
    for (Uint32 i = 0; i < 2; ++i)
    {
        equal(s.min()[i] + s.max()[i], lo[i] + hi[i]);
        equal(s.max()[i] - s.min()[i], r * (hi[i] - lo[i]));
    }
}
template <Uint32 n>
void law_box_of_geometry__tight(Poly<n> g)
{
    BoundingBox b{g};
    for (Uint32 i = 0; i < 2; ++i)
    {
        float lo = g[0][i], hi = g[0][i];
        for (Uint32 k = 1; k < n; ++k)
        {
            lo = g[k][i] < lo ? g[k][i] : lo;
            hi = hi < g[k][i] ? g[k][i] : hi;
        }
        equal(b.min()[i], lo);
        equal(b.max()[i], hi);
    }
}
// ---- orientation
inline void law_orientation__sign(Vec2 a, Vec2 b, Vec2 c)
{
    float t = turn(a, b, c);
    holds((orientation(a, b, c, 0.f) == Orientation::positive) == (t > 0.f));
    holds((orientation(a, b, c, 0.f) == Orientation::negative) == (t < 0.f));
    holds((orientation(a, b, c, 0.f) == Orientation::collinear) == (t == 0.f));
}
inline void law_orientation__tolerance(Vec2 a, Vec2 b, Vec2 c, float e)
{
    given(e > 0.f);
    float t = turn(a, b, c);
    holds((orientation(a, b, c, e) == Orientation::positive) == (t > e));
    holds((orientation(a, b, c, e) == Orientation::negative) == (t < -e));
}
// ---- area, centroid and second moment of a triangle
inline void law_geometry__triangle(Poly<3> g)
{
    float t = turn(g[0], g[1], g[2]);
    given(t != 0.f);
    GeometricProperties p{g};
    holds(!p.isDegenerate);
    equal(p.area * 2.f, t);
    for (Uint32 i = 0; i < 2; ++i)
        equal(p.centroid[i] * 3.f, g[0][i] + g[1][i] + g[2][i]);
}
inline void law_geometry__moment(Vec2 p, float a, float c, float h)
{
    given(a > 0.f);
    given(h > 0.f);
    Poly<3> g{p, Vec2{p[0] + a, p[1]}, Vec2{p[0] + c, p[1] + h}};
    float   s = far2(g[0], g[1]) + far2(g[1], g[2]) + far2(g[2], g[0]);
    float   m = GeometricProperties{g}.momentOfArea;
    equal(m * 72.f, a * h * s);
    equal(GeometricProperties{Poly<3>{g[2], g[1], g[0]}}.momentOfArea, m);
}
inline void law_geometry__degenerate(Vec2 a, Vec2 d, float s)
{
    Poly<3> g{a, a + d, Vec2{a[0] + s * d[0], a[1] + s * d[1]}};
    GeometricProperties p{g};
    holds(p.isDegenerate);
}
// a quadrilateral is the sum of two triangles
inline void law_geometry__quadrilateral(Vec2 p, float a, Vec2 r, Vec2 q)
{
    Poly<4> g{p, Vec2{p[0] + a, p[1]}, r, q};
    float   t1 = turn(g[0], g[1], g[2]), t2 = turn(g[0], g[2], g[3]);
    given(t1 + t2 != 0.f);
    GeometricProperties k{g};
    equal(k.area * 2.f, t1 + t2);
    for (Uint32 i = 0; i < 2; ++i)
        equal(k.centroid[i] * (t1 + t2) * 3.f,
              t1 * (g[0][i] + g[1][i] + g[2][i]) + t2 * (g[0][i] + g[2][i] + g[3][i]));
}
// ---- support points
template <Uint32 n>
void law_support__furthest(Poly<n> g, Vec2 d)
{
    given(d[0] != 0.f || d[1] != 0.f);
    Vec2 f = furthestVertexInDirection(g, d);
    for (Uint32 k = 0; k < n; ++k)
        holds(along(f, d) >= along(g[k], d));
    bool vertex = false;
    for (Uint32 k = 0; k < n; ++k)
        vertex = vertex || (f[0] == g[k][0] && f[1] == g[k][1]);
    holds(vertex);
}
// ---- edges
template <Uint32 n>
void law_edges__in_order(Poly<n> g)
{
    auto edges = edgesOf(g);
    auto e     = edges.begin();
    for (Uint32 k = 0; k < n; ++k, ++e)
        for (Uint32 i = 0; i < 2; ++i)
        {
            equal(e->from()[i], g[(k + n - 1) % n][i]);
            equal(e->to()[i], g[k][i]);
        }
    holds(e == edges.end());
}
template <Uint32 n>
void law_edges__neighbours(Poly<n> g)
{
    auto edges = edgesOf(g);
    auto e     = edges.begin();
    for (Uint32 k = 0; k < n; ++k, ++e)
    {
        auto next = edges.next(e);
        for (Uint32 i = 0; i < 2; ++i)
        {
            equal(next->from()[i], g[k][i]);
            equal(next->to()[i], g[(k + 1) % n][i]);
        }
    }
}
template <Uint32 n>
void law_edges__previous(Poly<n> g)
{
    auto edges = edgesOf(g);
    auto e     = edges.begin();
    ++e;
    for (Uint32 k = 1; k < n; ++k, ++e)
    {
        auto p = edges.previous(e);
        for (Uint32 i = 0; i < 2; ++i)
        {
            equal(p->from()[i], g[(k + n - 2) % n][i]);
            equal(p->to()[i], g[(k + n - 1) % n][i]);
        }
    }
}
inline void law_edge__normal(Poly<3> g)
{
    auto e  = *edgesOf(g).begin(); // from the last vertex to the first
    Vec2 d{g[0][0] - g[2][0], g[0][1] - g[2][1]};
    equal(e.direction()[0], d[0]);
    equal(e.direction()[1], d[1]);
    Vec2 n = e.normal();
    equal(along(n, d), 0.f);
    equal(along(n, n), along(d, d));
    float t = turn(g[0], g[1], g[2]);
    given(t > 0.f);
    holds(along(n, g[1] - g[0]) < 0.f);
    holds(e.isInside(g[1]));
    holds(!e.isOutside(g[1]));
}
inline void law_edge__side(Poly<3> g, Vec2 p)
{
    auto  e = *edgesOf(g).begin();
    float s = turn(g[2], g[0], p);
    holds(e.isInside(p) == (s > 0.f));
    holds(e.isOutside(p) == (s < 0.f));
}
inline void law_edge__distance(Poly<3> g)
{
    auto e = *edgesOf(g).begin();
    Vec2 o{0.f, 0.f};
    Vec2 c = LineBarycentric{g[2], g[0], o}.closestPoint;
    equal(e.distanceSquaredToPoint(o), along(c, c));
    equal(e.distanceSquaredToOrigin(), along(c, c));
}
inline void law_edge__distance_point(Vec2 a, Vec2 p)
{
    given(a[0] != 0.f || a[1] != 0.f);
    Poly<3> g{a, Vec2{1.f, 2.f}, Vec2{0.f, 0.f}};
    auto    e = *edgesOf(g).begin();
    Vec2    c = LineBarycentric{g[2], g[0], p}.closestPoint;
    equal(e.distanceSquaredToPoint(p), far2(c, p));
}
// an edge clipped by an upright line
inline void law_edge__clip(Vec2 a, Vec2 b, float x, float y, float k)
{
    given(k != 0.f);
    Poly<3> g{b, Vec2{1.f, 2.f}, a};
    Poly<3> h{Vec2{x, y + k}, Vec2{2.f, 3.f}, Vec2{x, y}};
    auto    e = *edgesOf(g).begin();
    auto    f = *edgesOf(h).begin();
    given(b[0] > a[0]);
    Vec2 r = e.clipInside(f);
    equal(turn(a, b, r), 0.f);
    equal(r[0], x < a[0] ? a[0] : (x > b[0] ? b[0] : x));
}
inline void law_edge__clip_parallel(Vec2 a, Vec2 b, Vec2 c, float k)
{
    given(k != 0.f);
    Poly<3> g{b, Vec2{1.f, 2.f}, a};
    Poly<3> h{Vec2{c[0] + k * (b[0] - a[0]), c[1] + k * (b[1] - a[1])}, Vec2{2.f, 3.f}, c};
    Vec2    r = (*edgesOf(g).begin()).clipInside(*edgesOf(h).begin());
    equal(r[0], a[0]);
    equal(r[1], a[1]);
}
// ---- closest point of a segment
inline void law_segment__closest(Vec2 A, Vec2 B, Vec2 Q)
{
    given(A[0] != B[0] || A[1] != B[1]);
    LineBarycentric l{A, B, Q};
    Vec2  d{B[0] - A[0], B[1] - A[1]};
    float t = along(Vec2{Q[0] - A[0], Q[1] - A[1]}, d), n = along(d, d);
    equal(l.u + l.v, 1.f);
    equal(l.v * n, t);
    for (Uint32 i = 0; i < 2; ++i)
        equal(l.closestPoint[i], l.v < 0.f ? A[i] : (l.v > 1.f ? B[i] : A[i] + l.v * d[i]));
}
inline void law_segment__point(Vec2 A, Vec2 Q)
{
    LineBarycentric l{A, A, Q};
    equal(l.closestPoint[0], A[0]);
    equal(l.closestPoint[1], A[1]);
    equal(l.u + l.v, 1.f);
}
// ---- barycentric coordinates of a triangle
template <int which>
struct Tri
{
    Vec2 A, B, C;
    Tri()
    {
        A = which == 2 ? Vec2{-3.f, -2.f} : Vec2{0.f, 0.f};
        B = which == 1 ? Vec2{1.f, 3.f} : Vec2{4.f, 1.f};
        C = which == 1 ? Vec2{4.f, 1.f} : (which == 2 ? Vec2{5.f, 3.f} : Vec2{1.f, 3.f});
    }
};
template <int which>
void law_triangle__coordinates(Tri<which>, Vec2 Q)
{
    Tri<which> t;
    float s = turn(t.A, t.B, t.C);
    float at = s < 0.f ? -s : s;
    TriangleBarycentric b{t.A, t.B, t.C, Q};
    equal((b.u + b.v + b.w) * 2.f, at);
    for (Uint32 i = 0; i < 2; ++i)
        equal((b.u * t.A[i] + b.v * t.B[i] + b.w * t.C[i]) * 2.f, at * Q[i]);
    for (Uint32 i = 0; i < 2; ++i)
    {
        equal(b.AB.closestPoint[i], LineBarycentric{t.A, t.B, Q}.closestPoint[i]);
        equal(b.BC.closestPoint[i], LineBarycentric{t.B, t.C, Q}.closestPoint[i]);
        equal(b.CA.closestPoint[i], LineBarycentric{t.C, t.A, Q}.closestPoint[i]);
    }
}
template <int which>
float side(Tri<which> t, Vec2 a, Vec2 b, Vec2 Q)
{
    float s = turn(a, b, Q);
    return which == 1 ? -s : s;
}
// the closest point is the point itself inside ...
template <int which>
void law_triangle_closest__inside(Tri<which>, Vec2 Q)
{
    Tri<which> t;
    given(side(t, t.A, t.B, Q) > 0.f);
    given(side(t, t.B, t.C, Q) > 0.f);
    given(side(t, t.C, t.A, Q) > 0.f);
    TriangleBarycentric b{t.A, t.B, t.C, Q};
    equal(b.closestPoint[0], Q[0]);
    equal(b.closestPoint[1], Q[1]);
}
// ... a vertex in the cone of its edges' normals ...
template <int which, int k>
void law_triangle_closest__vertex(Tri<which>, Vec2 Q)
{
    Tri<which> t;
    Vec2 V = k == 0 ? t.A : (k == 1 ? t.B : t.C);
    Vec2 N = k == 0 ? t.B : (k == 1 ? t.C : t.A);
    Vec2 O = k == 0 ? t.C : (k == 1 ? t.A : t.B);
    given(along(Q - V, N - V) < 0.f);
    given(along(Q - V, O - V) < 0.f);
    TriangleBarycentric b{t.A, t.B, t.C, Q};
    equal(b.closestPoint[0], V[0]);
    equal(b.closestPoint[1], V[1]);
}
// ... and otherwise a point of an edge
template <int which, int k>
void law_triangle_closest__edge(Tri<which>, Vec2 Q)
{
    Tri<which> t;
    Vec2 V = k == 0 ? t.A : (k == 1 ? t.B : t.C);
    Vec2 N = k == 0 ? t.B : (k == 1 ? t.C : t.A);
    given(along(Q - V, N - V) > 0.f);
    given(along(Q - N, V - N) > 0.f);
    given(side(t, V, N, Q) < 0.f);
    TriangleBarycentric b{t.A, t.B, t.C, Q};
    float s = along(Q - V, N - V), n = along(N - V, N - V);
    for (Uint32 i = 0; i < 2; ++i)
        equal(n * (b.closestPoint[i] - V[i]), s * (N[i] - V[i]));
}
template <int which>
void triangles(Tri<which> t)
{
    law_triangle__coordinates(t, Vec2{});
    law_triangle_closest__inside(t, Vec2{});
    law_triangle_closest__vertex<which, 0>(t, Vec2{});
    law_triangle_closest__vertex<which, 1>(t, Vec2{});
    law_triangle_closest__vertex<which, 2>(t, Vec2{});
    law_triangle_closest__edge<which, 0>(t, Vec2{});
    law_triangle_closest__edge<which, 1>(t, Vec2{});
    law_triangle_closest__edge<which, 2>(t, Vec2{});
}
inline void instances()
{
    law_box_of_geometry__tight<3>(Poly<3>{});
    law_box_of_geometry__tight<4>(Poly<4>{});
    law_support__furthest<3>(Poly<3>{}, Vec2{});
    law_support__furthest<4>(Poly<4>{}, Vec2{});
    law_edges__in_order<3>(Poly<3>{});
    law_edges__in_order<4>(Poly<4>{});
    law_edges__neighbours<3>(Poly<3>{});
    law_edges__neighbours<4>(Poly<4>{});
    law_edges__previous<3>(Poly<3>{});
    law_edges__previous<4>(Poly<4>{});
    triangles(Tri<0>{});
    triangles(Tri<1>{});
    triangles(Tri<2>{});
}
} // namespace laws
