#include "Simu/physics.hpp"
#include <cstdio>
using namespace simu;
int main(){
    // two pieces of fixed scenery that overlap
    World w; BodyDescriptor d; d.dominance = 0.f;
    Polygon sq{Vec2{-1,-1},Vec2{1,-1},Vec2{1,1},Vec2{-1,1}};
    w.makeBody(d)->addCollider(ColliderDescriptor{sq});
    d.position = Vec2{0.5f, 0.f};
    w.makeBody(d)->addCollider(ColliderDescriptor{sq});
    try { w.step(0.01f); w.step(0.01f); }
    catch (const std::exception& e) { std::printf("%s\n", e.what()); return 1; }
    return 0;
}
