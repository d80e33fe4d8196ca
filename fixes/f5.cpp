#include "common.hpp"
int main(){ World w; mk(w,{0,0}); mk(w,{0.5f,0}); w.step(0.01f); w.step(0.01f); w.setContactFactory(World::defaultContactFactory); for(int i=0;i<3;i++) w.step(0.01f); puts("ok"); }
