#include "common.hpp"
typedef RotationConstraintFunction F;
struct L: ConstraintImplementation<F,LimitsSolver<F>> { L(const Bodies&b): ConstraintImplementation<F,LimitsSolver<F>>{b,F{b},true}{} };
int main(){ World w; Body*a=mk(w,{0,0}); Body*b=mk(w,{3,0}); w.makeConstraint<L>(Bodies{a,b}); try{ w.step(0.01f); puts("ok"); }catch(std::exception&e){puts(e.what());return 1;} }
