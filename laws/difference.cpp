#include "laws.hpp"

namespace laws
{
inline float along(Vec2 a, Vec2 b) { return a[0] * b[0] + a[1] * b[1]; }
inline float turn(Vec2 a, Vec2 b, Vec2 c)
{
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
}
inline bool same(Vec2 a, Vec2 b) { return a[0] == b[0] && a[1] == b[1]; }
// ---- the difference of two shapes
typedef std::vector<Vec2, Collider::Alloc> Points;
inline void law_difference__furthest(Gjk<Collider> g, Vec2 d, float t)
{
    Vec2 u[3] = {Vec2{0.f, 0.f}, Vec2{4.f, 1.f}, Vec2{1.f, 3.f}};
    Vec2 w[3] = {Vec2{-1.f, t}, Vec2{2.f, t}, Vec2{1.f, t + 5.f}};
    Collider& a = const_cast<Collider&>(g.first_);
    Collider& b = const_cast<Collider&>(g.second_);
    a.transformed_ = Points{u[0], u[1], u[2]};
    b.transformed_ = Points{w[0], w[1], w[2]};
    Vec2 x = g.furthestVertexInDirection(d);
    bool vertex = false;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
        {
            holds(along(x, d) >= along(u[i] - w[j], d));
            vertex = vertex || same(x, u[i] - w[j]);
        }
    holds(vertex);
}
} // namespace laws
