#include "common.hpp"
int nc=0,nd=0;
struct C: ContactConstraint { using ContactConstraint::ContactConstraint; void onConstruction(World&) override {nc++;} void onDestruction(World&) override {nd++;} };
int main(){ World w{[](Collider&a,Collider&b,const World::ContactAlloc& al)->UniquePtr<ContactConstraint>{return makeUnique<C>(al,a,b);}}; Body*a=mk(w,{0,0}); mk(w,{0.5f,0}); w.step(0.01f); w.step(0.01f); a->kill(); w.step(0.01f); printf("%d %d\n",nc,nd); return nc!=nd; }
