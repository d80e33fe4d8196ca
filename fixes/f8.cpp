#include "common.hpp"
int main(){ World w; auto s=w.settings(); s.enableSleeping=true; s.inactivitySleepDelay=0.1f; w.updateSettings(s);
 Body*q=mk(w,{0,0}); q->setAngularVelocity(-5.f); for(int i=0;i<60;i++) w.step(0.01f); printf("spinning body asleep: %d\n", q->isAsleep()); return q->isAsleep(); }
