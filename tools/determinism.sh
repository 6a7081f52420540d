#!/bin/bash
# The event logs of all runs must not depend on the number of workers or on the hash seed.
# tools/determinism.sh [RUNS] [PROPERTY...]
cd "$(dirname "$0")/.." || exit 3
runs=${1:-300}; shift
props=${*:-$(seq -f 'C%02g' 1 19)}
bad=0
for p in $props; do
    a=$(PYTHONHASHSEED=0 ./run.sh check.py --property "$p" --digest --runs "$runs" --workers 1 | grep ^DIGEST)
    b=$(PYTHONHASHSEED=77 ./run.sh check.py --property "$p" --digest --runs "$runs" --workers 8 | grep ^DIGEST)
    if [ -n "$a" ] && [ "$a" = "$b" ]; then echo "$p same $a"; else echo "$p DIFFERENT $a / $b"; bad=1; fi
done
exit $bad
