#include "common.hpp"
int main(){ World w; auto s=w.settings(); s.enableSleeping=true; s.inactivitySleepDelay=0.1f; w.updateSettings(s);
 Body*q=mk(w,{0,0}); Body*m=mk(w,{50,0}); int asleep=0; for(int i=0;i<60;i++){ m->setVelocity(Vec2{5,0}); w.step(0.01f);} 
 // after a sleeping step, the quiet body must remain asleep during solveIslands
 struct W{};
 printf("q asleep at end %d\n", q->isAsleep()); 
 }
