#!/bin/bash
# run.sh build            build the harness (and the feature probes)
# run.sh <property> [...] rebuild what /repo's current tree needs, then run one check
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
export PATH="$PATH:$HOME/.cargo/bin:/root/.cargo/bin"
export CARGO_NET_OFFLINE=true VERIF_DIR="$V"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
mkdir -p target evidence replays

srchash() {
    { find /repo -path /repo/target -prune -o -path /repo/.git -prune -o -type f \
        \( -name '*.rs' -o -name '*.bin' -o -name '*.md' -o -name Cargo.toml -o -name Cargo.lock \) -print0 \
        | sort -z | xargs -0 sha256sum
      cd "$V" && find harness probe -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum
      rustc --version; } | sha256sum | cut -d' ' -f1
}

# cargo compares file times; a tree put in place with old times must still be rebuilt
build() { # manifest-dir target-dir extra-args...
    local man=$1 tgt=$2; shift 2
    local mark=target/$(basename "$tgt").srchash now
    now=$(srchash)
    if [ "$(cat "$mark" 2>/dev/null)" != "$now" ] && [ -d "$tgt" ]; then
        CARGO_TARGET_DIR=$tgt cargo clean --release --offline --manifest-path "$man/Cargo.toml" \
            -p srp -p spake2 -p aucpace -p "$(basename "$man" | sed 's/harness/pakecheck/;s/^probe$/pakeprobe/')" >/dev/null 2>&1
    fi
    if ! CARGO_TARGET_DIR=$tgt cargo build --release --offline --manifest-path "$man/Cargo.toml" "$@" >target/build.log 2>&1; then
        tail -n 40 target/build.log >&2
        echo "build of $man failed" >&2
        return 1
    fi
    echo "$now" >"$mark"
}

build_h() { build "$V/harness" "$V/target/h" || exit 2; }
build_p() { [ -x "$V/probe/build.sh" ] || return 0; "$V/probe/build.sh" "$(srchash)" || exit 2; }

case "${1:-}" in
build) build_h; build_p; exit 0 ;;
"") echo "usage: run.sh build | <property> [args]" >&2; exit 2 ;;
X03) build_h; build_p ;;
*) build_h ;;
esac
exec "$V/target/h/release/pakecheck" "$@"
