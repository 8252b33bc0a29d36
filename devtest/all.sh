#!/bin/bash
# devtest/all.sh [tree] [extra args]: run every check on a tree, report exit codes
T=${1:-/repo}; shift
cd "$(dirname "$0")/.."
ids=$(python3 -c "import sys;sys.path.insert(0,'engine');import anchors;print(' '.join(sorted(set(anchors.ANCHORS)|{'C45','C46','C60','C61'})))")
O=$(mktemp -d /tmp/all.XXXX)
printf '%s\n' $ids | xargs -P 4 -I{} sh -c "python3 check.py {} --tree $T --no-evidence $* > $O/{}.out 2>&1; echo {} \$? >> $O/rc"
sort $O/rc | awk '$2!=0' ; grep -h -A1 'cross-check:' $O/*.out | grep -v ' 0 explored' | head -0
grep -H 'undecided' $O/*.out | grep -v ' 0 explored' | sed 's/.*\/\(C..\).out:/\1/' | head -70
echo "out in $O"
