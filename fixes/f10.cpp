#define SIMU_NO_PROFILER
#include "common.hpp"
int main(){ World w; w.step(0.01f);}
