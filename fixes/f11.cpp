#include "common.hpp"
int main(){ World w; Body*a=mk(w,{0,0}); try{ w.makeConstraint<HingeConstraint>(Bodies{a,nullptr},Vec2{}); }catch(simu::Exception&e){puts("exception");return 0;} }
