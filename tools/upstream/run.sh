#!/bin/bash
# Runs every test program of the repository under ASan+UBSan (and TSan for the threaded ones) with a stand-in for
# the two missing packages. Usage: run.sh [REPO]. Not a check: used to validate fix commits and seeded changes.
R=${1:-/repo}; H=$(cd "$(dirname "$0")" && pwd); B=$(mktemp -d /tmp/up.XXXXXX); rc=0
printf '#define DOCTEST_CONFIG_IMPLEMENT_WITH_MAIN\n#include <doctest/doctest.h>\n' > $B/main.cpp
g++ -std=c++17 -c $B/main.cpp -o $B/main.o &
g++ -std=c++17 -fsanitize=thread -c $B/main.cpp -o $B/maint.o & wait
one() { n=$(basename $1 .cpp)
  g++ -std=${3:-c++17} -g -w -include iostream -fsanitize=$2 -I$H -I$R/code -I$R/test-helper $1 $4 -o $B/$n-${2%%,*}-$3 -pthread > $B/$n.log 2>&1 || { echo "COMPILE $n $2"; head -5 $B/$n.log; echo F >> $B/fail; return; }
  timeout 120 $B/$n-${2%%,*}-$3 > $B/$n.out 2>&1 || { echo "FAIL $n $2"; grep -m8 -E "ERROR|SUMMARY|FATAL|TEST CASE|error" $B/$n.out; echo F >> $B/fail; }
}
for f in $R/test/t-*.cpp; do one $f address,undefined c++17 $B/main.o & done; wait
for f in $R/test/t-shared_ptr*.cpp $R/test/t-sanity_std_shared_ptr.cpp; do one $f thread c++17 $B/maint.o & one $f address,undefined c++20 $B/main.o & done; wait
[ -f $B/fail ] && { echo "upstream: FAILURES"; rc=1; } || echo "upstream: all pass"
rm -rf "$B"; exit $rc
