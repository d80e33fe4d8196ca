#include "common.hpp"
#include <new>
int main(){ alignas(BoundingBox) unsigned char mem[sizeof(BoundingBox)]; std::fill(mem,mem+sizeof mem,0x3f); std::vector<Vec2> v; auto*b=new(mem) BoundingBox(v.begin(),v.end()); printf("valid=%d\n",b->isValid()); return b->isValid(); }
