#include "common.hpp"
int main(){ World w; Body*b=mk(w,{0,0}); for(int i=0;i<400;i++) b->addCollider(ColliderDescriptor{box(0.3f)}); b->kill(); w.step(0.01f); puts("ok"); }
