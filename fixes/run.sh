#!/bin/bash
R=${R:-/repo}
S="$R/src/Simu/math/*.cpp $R/src/Simu/physics/*.cpp"
g++ -std=c++20 -g -O1 -w -DSIMU_OS_LINUX $EXTRA -I$R/include $1 $S -o ${1%.cpp}.out && ./${1%.cpp}.out 2>&1 | head -${N:-12}; echo "rc=${PIPESTATUS[0]}"
