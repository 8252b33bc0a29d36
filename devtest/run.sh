#!/bin/bash
# dev aid (not a check): builds the whole library of tree $1 against /verif/stubs and runs the repo's own doctest suites
R=${1:-/repo}; W=$(mktemp -d /tmp/dmxtest.XXXX); S=$(cd "$(dirname "$0")/.." && pwd)
F="-std=c++17 -g -O0 -I$R/code -I$R/v1compat/code -I$S/stubs -I$S/devtest -I$R/test -I$R"
cd $W
(for f in $R/code/dynamix/*.cpp $R/code/dynamix/compat/pmr/*.cpp; do echo "g++ $F -c $f -o $W/$(basename $f).o"; done; echo "gcc -std=c11 -I$R/code -I$S/stubs -c $R/code/dnmx/mixin_common_funcs.c -o $W/mcf.c.o") | xargs -P8 -I{} sh -c '{} || echo FAILBUILD'
ar rcs lib.a *.o
printf '#define DOCTEST_CONFIG_IMPLEMENT_WITH_MAIN\n#include <doctest/doctest.h>\n' > main.cpp; g++ $F -c main.cpp -o main.oo
for t in $R/test/t-*.cpp; do b=$(basename $t .cpp); echo "g++ $F $t main.oo lib.a -lpthread -o $b 2>$b.err || g++ $F -DDOCTEST_CONFIG_IMPLEMENT_WITH_MAIN $t lib.a -lpthread -o $b 2>$b.err || echo CANTBUILD $b; [ -x $b ] && { timeout 60 ./$b >$b.out 2>&1 || echo FAIL $b; }"; done | xargs -P8 -I{} sh -c '{}'
echo done; cd /; rm -rf "$W"
