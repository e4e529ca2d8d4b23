#!/bin/bash
# run.sh check C01 | replay FILE | determinism C01 50 ...
case "$2" in
    C19|C20|C23|*/C19-*|*/C20-*|*/C23-*) v=python; b=py ;;
    *) v=rayon; b= ;;
esac
/verif/sim/build.sh $b || exit 3
export SIMCHECK_SERIAL=/verif/sim/target/simcheck-serial
exec /verif/sim/target/simcheck-$v "$@"
