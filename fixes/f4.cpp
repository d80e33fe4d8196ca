#include "common.hpp"
int main(){ World w; Body*a=mk(w,{0,0}); Body*b=mk(w,{3,0}); try { w.makeConstraint<DistanceConstraint>(Bodies{a,b}, std::array<Vec2,2>{Vec2{0,0},Vec2{3,0}}, std::optional<float>(1.f), std::optional<float>()); puts("ok"); } catch(simu::Exception&e){puts(e.what());return 1;} }
