#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property on /repo's working tree
# check.sh replay FILE                 run a replay file again
# check.sh build                       build the simulator only
# check.sh selftest [RUNS SEEDS]       same seeds over 1, 3 and 8 processes
set -u
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export CARGO_NET_OFFLINE=true RUSTC_BOOTSTRAP=fmsim
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTDOCFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
seed=${VERIF_SEED:-1}
case $seed in ''|*[!0-9]*) seed=1 ;; esac
mode=${1:-}
tier=${2:-${VERIF_TIER:-quick}}

# The key shapes are generated at build time: BUILD_SEED picks the random ones, WIDE adds more of them.
# C16 has a build of its own, in which the scheduler sees every memory access of the code under test.
# Size 2 is a release build of a few shapes: no debug assertions, no overflow checks.
build() { # BUILD_SEED SIZE PROPERTY
    local profile=()
    bin=debug
    if [ "$2" = 2 ]; then
        export CARGO_TARGET_DIR=$here/sim/target/shipped
        unset RUSTC_WRAPPER
        profile=(--release)
        bin=release
    elif [ "$3" = C16 ]; then
        export CARGO_TARGET_DIR=$here/sim/target/seen RUSTC_WRAPPER=$here/sim/rustc.sh
    else
        export CARGO_TARGET_DIR=$here/sim/target
        unset RUSTC_WRAPPER
    fi
    export FMSIM_BUILD_SEED=$1 FMSIM_WIDE=$2
    # Cargo trusts modification times; the trees this runs on are copies whose times mean nothing.
    local log part old now stamps=$CARGO_TARGET_DIR/sources changed=()
    mkdir -p "$stamps"
    for part in core fixed-map; do
        if [ $part = core ]; then old=(core); else old=(/repo/Cargo.toml /repo/src /repo/fixed-map-derive/Cargo.toml /repo/fixed-map-derive/src Cargo.toml Cargo.lock build.rs rustc.sh src); fi
        now=$(cd "$here/sim" && find "${old[@]}" -type f -print0 | sort -z | xargs -0 sha256sum)
        if [ "$now" != "$(cat "$stamps/$part" 2>/dev/null)" ]; then
            rm -f "$stamps/$part"
            if [ $part = core ]; then changed+=(-p fmsim-core); else changed+=(-p fixed-map -p fixed-map-derive -p fmsim); fi
        fi
        printf '%s\n' "$now" > "$stamps/$part.new"
    done
    if [ ${#changed[@]} -gt 0 ]; then (cd "$here/sim" && cargo clean --offline "${profile[@]}" "${changed[@]}") >/dev/null 2>&1; fi
    if ! log=$(cd "$here/sim" && cargo build --offline --locked "${profile[@]}" 2>&1); then
        printf '%s\n' "$log" >&2
        echo "fmsim: cannot build the simulator against /repo" >&2
        exit 2
    fi
    for part in core fixed-map; do mv -f "$stamps/$part.new" "$stamps/$part"; done
}
run() { (ulimit -c 0; exec "$CARGO_TARGET_DIR/$bin/fmsim" "$@"); }

case $mode in
    build) build "$seed" 0 C16; build "$seed" 0 all; build "$seed" 2 all ;;
    selftest) build "$seed" 0 C16; run selftest "${2:-600}" "${3:-4}" "$here" ;;
    replay)
        file=$(realpath "$2")
        read -r b w p < <(python3 -c '
import json, sys
v = json.load(open(sys.argv[1])); p = v.get("plan") or v["batch"]
print(p["build_seed"], p["wide"], v["property"])' "$file") || exit 2
        build "$b" "$w" "$p"
        run replay "$file" "$here"
        ;;
    C[0-9][0-9])
        mkdir -p "$here/evidence"
        if [ "$tier" = thorough ]; then
            # Several builds: other random key shapes, each explored for its share of the time.
            share=${FMSIM_SECONDS:-150}
            for i in 0 1 2; do
                build $((seed + 1000 * i)) 1 "$mode"
                FMSIM_SECONDS=$share FMSIM_PART=$i run check "$mode" thorough "$seed" "$here"
                rc=$?
                [ $rc = 0 ] || exit $rc
            done
            [ "$mode" = C16 ] && exit 0
            build "$seed" 2 "$mode"
            FMSIM_SECONDS=$((share / 2)) FMSIM_PART=3 run check "$mode" thorough "$seed" "$here"
            exit
        fi
        build "$seed" 0 "$mode"
        FMSIM_PART=0 run check "$mode" quick "$seed" "$here"
        rc=$?
        if [ $rc != 0 ] || [ "$mode" = C16 ]; then exit $rc; fi
        build "$seed" 2 "$mode"
        FMSIM_PART=1 run check "$mode" quick "$seed" "$here"
        ;;
    *) sed -n 2,6p "$0"; exit 2 ;;
esac
