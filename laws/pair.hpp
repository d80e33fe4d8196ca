#pragma once
#include "laws.hpp"
#include "Simu/physics/DistanceConstraint.hpp"
#include "Simu/physics/Motors.hpp"

namespace laws
{
// two bodies being solved, in any pose and motion
struct Pair
{
    float x0, y0, t0, x1, y1, t1;
    Vec2  c0, c1;
    Vec2  v0, v1;
    float w0, w1;
    InvMasses m;
};
struct Solve
{
    Position p0, p1;
    Velocity v0, v1;
    Proxies  proxies;

    explicit Solve(const Pair& a)
        : p0{Vec2{a.x0, a.y0}, a.t0, a.c0},
          p1{Vec2{a.x1, a.y1}, a.t1, a.c1},
          v0{a.v0, a.w0},
          v1{a.v1, a.w1},
          proxies{SolverProxy{&p0, &v0}, SolverProxy{&p1, &v1}, a.m}
    {
    }
};

} // namespace laws
