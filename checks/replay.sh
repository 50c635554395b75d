#!/bin/bash
# replay.sh MODE CASEFILE: check one case against the real code of /repo
. /opt/vp/env.sh
V=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_TARGET_DIR=$V/build/target RUSTFLAGS="--cfg victor_verif -Awarnings" VICTOR_VERIF_DIR=$V/hooks CARGO_INCREMENTAL=0
CRATE=harness FEATURES=
case "$1" in
*:*) C=${1%%:*}; CRATE=harness_${C%%+*}; case "$C" in *+*) FEATURES="--features ${C#*+}";; esac;;
esac
cargo build --offline --quiet --manifest-path "$V/$CRATE/Cargo.toml" $FEATURES || exit 2
exec "$V/build/target/debug/$CRATE" one "${1##*:}" "$2"
