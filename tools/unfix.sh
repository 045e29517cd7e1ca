#!/bin/bash
# show that a check catches the defect a fix commit repaired: tools/unfix.sh COMMIT PID
cd /repo && git diff $1 $1~1 -- ml4gw > /tmp/unfix.$$.diff && git apply /tmp/unfix.$$.diff && (cd /verif && ./check.py $2 | tail -4 | cut -c1-300); git -C /repo checkout -q -- . ; unlink /tmp/unfix.$$.diff
