#!/bin/bash
# run.sh unit [verus args]
u=$1; shift
/tmp/vxt/release/vx --src koopa=/tmp/v/koopa.rs --src libkoopa=/tmp/v/libkoopa.rs --header /repo/libkoopa/include/koopa.h --loops /verif/units/loops/$u.txt --unit /verif/units/$u.vx --out /tmp/v/$u.rs --meta /tmp/v/$u.json || exit 3
cd /tmp/v && verus $u.rs "$@" 2>&1 | head -${LINES_MAX:-120}
