#!/bin/bash
# check.sh build | ID | replay FILE
# Builds the harness against /repo's current working tree (outside /repo) and runs one check or one replay.
# Exit 0: held; 1: VIOLATION; 2: no verdict (does not build, or an error of the harness).
cd /verif || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/.build"
mkdir -p .build evidence replays
counting=
case "$1" in
build | C29) counting=1 ;;
replay) grep -q '^oracle cost_' "$2" && counting=1 ;;
esac
(
    flock 9
    # cargo compares modification times; a restored or copied tree can carry old ones, so compare the contents instead
    now=$({ find /repo/src /repo/lolcode-ast-derive/src "$PWD/harness" "$PWD/tools/sched-rustc.sh" "$PWD/tools/count-rustc.sh" -type f -print0; find /repo /repo/lolcode-ast-derive -maxdepth 1 -type f \( -name '*.toml' -o -name 'build.rs' \) -print0; } | sort -z | xargs -0 sha256sum; find /repo -name '*.rs' -not -path '*/target/*' -printf '%p %s\n' | sort)
    if [ "$now" != "$(cat .build/stamp 2>/dev/null)" ]; then
        for d in /verif/.build/release/.fingerprint /verif/.build/plain/.fingerprint /verif/.build/sched/release/.fingerprint /verif/.build/count/x86_64-unknown-linux-gnu/release/.fingerprint; do
            [ -d "$d" ] && find "$d" -maxdepth 1 \( -name 'lolcode*' -o -name 'vh-*' \) -exec rm -r {} +
        done
        rm -f /verif/.build/stamp
    fi
    build() {
        cargo build --profile plain --offline --locked --manifest-path harness/Cargo.toml && cargo build --release --offline --locked --manifest-path harness/Cargo.toml && {
            # only C23 uses this one
            RUSTC_WRAPPER="$PWD/tools/sched-rustc.sh" CARGO_TARGET_DIR="$PWD/.build/sched" cargo build --release --offline --locked --manifest-path harness/Cargo.toml || rm -f "$PWD/.build/sched/release/vh"
        } && {
            # only C29 uses this one; it builds the standard library too (RUSTC_BOOTSTRAP: -Zbuild-std on this toolchain)
            [ -z "$counting" ] || RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER="$PWD/tools/count-rustc.sh" CARGO_TARGET_DIR="$PWD/.build/count" cargo build --release --offline --locked -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu --manifest-path harness/Cargo.toml || rm -f "$PWD/.build/count/x86_64-unknown-linux-gnu/release/vh"
        }
    }
    {
        # with the hook in /repo; without it, should it not build: then assignments are left out of C21 and C22
        RUSTFLAGS="--cfg lolcode_verif" build || RUSTFLAGS= build
    } >.build/build.log 2>&1 || {
        tail -60 .build/build.log >&2
        echo "check.sh: the harness does not build against /repo" >&2
        exit 2
    }
    printf '%s' "$now" >.build/stamp
) 9>.build/lock || exit 2
case "$1" in
build) exit 0 ;;
replay)
    grep -q '^oracle schedule_block' "$2" && exec .build/sched/release/vh replay "$2"
    grep -q '^oracle cost_' "$2" && exec .build/count/x86_64-unknown-linux-gnu/release/vh replay "$2"
    exec .build/release/vh replay "$2"
    ;;
*) exec .build/release/vh check "$1" ;;
esac
