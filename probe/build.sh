#!/bin/bash
# build.sh HASH: build the probe once per feature set of sets.txt into target/probe-bin
cd "$(dirname "$0")" || exit 2
V=$(cd .. && pwd)
want="$1"
out=$V/target/probe-bin
[ "$(cat "$out/.hash" 2>/dev/null)" = "$want" ] && exit 0
mkdir -p "$out"
rm -f "$out/.hash" "$out"/*
# two build directories, built side by side
half() { # directory start
    local t=$V/target/p$1 log=$V/target/probe$1.log
    CARGO_TARGET_DIR=$t cargo clean --release --offline -p spake2 -p aucpace -p pakeprobe >/dev/null 2>&1
    : >"$log"
    awk -v k="$1" 'NR % 4 == k' sets.txt | while read -r name feats; do
        CARGO_TARGET_DIR=$t cargo build --release --offline --features "$feats" >>"$log" 2>&1 \
            && cp "$t/release/pakeprobe" "$out/$name" || { echo "feature set $name does not build" >>"$log"; exit 1; }
    done
}
pids=()
for k in 0 1 2 3; do half $k & pids+=($!); done
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=1; done
if [ $rc != 0 ]; then
    for k in 0 1 2 3; do tail -n 25 "$V/target/probe$k.log" >&2; done
    echo "build of a feature probe failed" >&2
    exit 2
fi
echo "$want" >"$out/.hash"
