#!/bin/bash
# build.sh [py]: builds the simulator from /repo's working tree (py: the variant with the Python bindings).
cd /verif/sim || exit 3
export RUSTC_WRAPPER=/verif/sim/wrap.sh CARGO_NET_OFFLINE=true
exec 9>/verif/sim/.lock; flock 9
if [ "$1" != py ]; then
    cargo build --release --offline --quiet --no-default-features >&2 || exit 3
    cp -f target/release/simcheck target/simcheck-serial || exit 3
    cargo build --release --offline --quiet >&2 || exit 3
    cp -f target/release/simcheck target/simcheck-rayon || exit 3
fi
if [ -n "$1" ]; then
    export PYO3_PYTHON=/usr/bin/python3.12
    cargo build --release --offline --quiet --features python >&2 || exit 3
    cp -f target/release/simcheck target/simcheck-python || exit 3
fi
