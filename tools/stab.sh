#!/bin/bash
# development helper: does every unit verify under other solver seeds too?
for u in ${@:-$(ls /verif/verus/units | sed 's/\.vu//')}; do
  (cd /verif/verus && /verif/.build/vx/debug/vx /repo/src . $u /tmp/vt/$u.rs > /tmp/vt/$u.json) || continue
  for i in 1 2 3 4; do (cd /tmp/vt; echo $u $i $(verus $u.rs -V spinoff-all --smt-option smt.random_seed=$i 2>&1 | grep "results")); done
done
