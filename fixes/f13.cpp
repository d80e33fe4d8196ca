#include "Simu/physics.hpp"
#include <cstdio>
using namespace simu;
int main(){
    World w; BodyDescriptor d; Body* b=w.makeBody(d);
    Polygon sq{Vec2{-1,-1},Vec2{1,-1},Vec2{1,1},Vec2{-1,1}};
    Polygon sq2{Vec2{3,-1},Vec2{5,-1},Vec2{5,1},Vec2{3,1}};
    b->addCollider(ColliderDescriptor{sq});
    b->setAngularVelocity(1.f);
    Collider* c=b->addCollider(ColliderDescriptor{sq2});
    // the centroid moved to (2,0): it moves with velocity w x r = (0,2)
    std::printf("%f %f\n", b->velocity()[0], b->velocity()[1]);
    bool ok = std::abs(b->velocity()[1]-2.f)<1e-4f;
    b->removeCollider(c);
    std::printf("%f %f\n", b->velocity()[0], b->velocity()[1]);
    ok = ok && std::abs(b->velocity()[1])<1e-4f;
    return !ok;
}
