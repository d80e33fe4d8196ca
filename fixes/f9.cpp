#include "common.hpp"
int main(){ TimeEntry e; { ScopedTimer t=e.time(); ScopedTimer u=std::move(t);} printf("%ld\n",(long)e.nMeasures()); return e.nMeasures()!=1; }
