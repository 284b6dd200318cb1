#!/bin/bash
# tools/fixed.sh PROPERTY [COMMIT]: records a fix commit of /repo in known_findings.txt
c=${2:-HEAD}
h=$(git -C /repo rev-parse --short=7 $c)
grep -q " $h " /verif/known_findings.txt || echo "fixed: property=$1 $h $(git -C /repo log -1 --format=%s $c | sed 's/^fix: //')" >> /verif/known_findings.txt
