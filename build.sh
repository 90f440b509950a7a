#!/bin/bash
# Builds the programs under test from /repo's working tree, and the simulator, into /verif/target.
. /opt/vp/env.sh
V=$(cd "$(dirname "$0")" && pwd)
T=$V/target
export CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_INCREMENTAL=0
mkdir -p "$T"
log=$T/build.log
: > "$log"
run() { ( cd "$1" && shift && "$@" ) >> "$log" 2>&1; }
rc=0
run /repo cargo build --offline --locked -p xdvdfs-cli -p xdvdfs-fsd --target-dir "$T/cli" & a=$!
run /repo/xdvdfs-cli cargo build --offline --locked --features sync --target-dir "$T/clisync" & b=$!
run "$V/simos" cargo build --release --offline --locked --target-dir "$T/simos" & c=$!
run "$V/xsim" cargo build --offline --locked --target-dir "$T/xsim" & d=$!
( rm -f "$T/desk/debug/desk"; run "$V/desk" cargo build --offline --locked --target-dir "$T/desk" ) & e=$!
( rm -f "$T/web/debug/web" "$T/web/debug/pages"; run "$V/web" cargo build --offline --locked --bins --keep-going --target-dir "$T/web" ) & g=$!
( rm -f "$T/dpages/debug/dpages"; run "$V/dpages" cargo build --offline --locked --target-dir "$T/dpages" ) & i=$!
( rm -f "$T/devs/debug/devs" "$T/devs/debug/stdfs"; run "$V/devs" cargo build --offline --locked --bins --keep-going --target-dir "$T/devs" ) & h=$!
for p in $a $b $c $d; do wait $p || rc=1; done
wait $e $g $h $i  # the apps, their pages and the program around the block devices are each judged by few checks
if [ $rc != 0 ]; then
    grep -E "^error" -A12 "$log" | head -60 >&2
    echo "build failed, see $log" >&2
fi
exit $rc
