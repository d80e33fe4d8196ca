#include "common.hpp"
#include "Simu/physics/RTree.hpp"
int main(){ RTree<int> a; a.insert(BoundingBox{Vec2{0,0},Vec2{1,1}},3); RTree<int> b{std::move(a)}; int s=0; for(int x: b) s+=x; printf("%d %zu\n",s,b.size()); return s!=3; }
