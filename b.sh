#!/bin/bash
# dev helper: b.sh pNN features [args]
b=$1; f=$2; shift 2
cd /verif/harness; unset CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL CARGO_INCREMENTAL
cargo build --offline --quiet --target-dir /verif/target/seq --features $f --bin $b 2>&1 | grep -E "^error" -A 12 | head -80
/verif/target/seq/debug/$b --verbose "$@" 2>&1 | grep -E "^(\[[a-z]|FAIL|  [a-zA-Z]|VIOL|KNOWN|P[0-9]|ERROR|replay|sub=|thread)" | cut -c1-1500 | grep -v "^  [\"\]}{]"
