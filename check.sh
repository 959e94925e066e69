#!/bin/bash
# bash check.sh <property-id>        run one check (VERIF_SEED, VERIF_TIER)
# bash check.sh replay <file>        re-run the case a replay file names
# bash check.sh build                build the default monitor binary only
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR=$VERIF/target
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
case $SEED in ''|*[!0-9]*) SEED=1 ;; esac

build() {
    mkdir -p "$CARGO_TARGET_DIR"
    if (cd "$VERIF/harness" && cargo build --offline --locked --release >"$CARGO_TARGET_DIR/build.log" 2>&1); then
        return
    fi
    # only C24 uses more than the top-level functions
    if [ "$1" = C24 ] || ! (cd "$VERIF/harness" && cargo build --offline --locked --release --no-default-features --features json >"$CARGO_TARGET_DIR/build-top.log" 2>&1); then
        tail -40 "$CARGO_TARGET_DIR/build.log"
        echo "INCONCLUSIVE: the monitor does not build against this tree"
        exit 2
    fi
}

# variant NAME FEATURES: the workload program built with one set of library features
variant() {
    mkdir -p "$CARGO_TARGET_DIR/variants"
    rm -f "$CARGO_TARGET_DIR/variants/$1"
    if ! (cd "$VERIF/variant" && cargo build --offline --locked --release --features "$2" >"$CARGO_TARGET_DIR/variant-$1.log" 2>&1); then
        tail -40 "$CARGO_TARGET_DIR/variant-$1.log"
        echo "INCONCLUSIVE: the workload does not build with features $2"
        exit 2
    fi
    cp "$CARGO_TARGET_DIR/release/toonvariant" "$CARGO_TARGET_DIR/variants/$1"
}

NIGHTLY=nightly-x86_64-unknown-linux-gnu
# sanitized NAME FLAGS [cargo options]: the same program with all features, instrumented
sanitized() {
    local name=$1 flags=$2
    shift 2
    mkdir -p "$CARGO_TARGET_DIR/variants"
    rm -f "$CARGO_TARGET_DIR/variants/$name"
    if ! (cd "$VERIF/variant" && CARGO_TARGET_DIR=$CARGO_TARGET_DIR/$name RUSTUP_TOOLCHAIN=$NIGHTLY RUSTFLAGS=$flags cargo build --offline --locked --release --target x86_64-unknown-linux-gnu "$@" --features json,perf_memchr,perf_smallvec,perf_lexical >"$VERIF/target/variant-$name.log" 2>&1); then
        tail -40 "$CARGO_TARGET_DIR/variant-$name.log"
        echo "INCONCLUSIVE: the workload does not build with $flags"
        exit 2
    fi
    cp "$CARGO_TARGET_DIR/$name/x86_64-unknown-linux-gnu/release/toonvariant" "$CARGO_TARGET_DIR/variants/$name"
}

# what a check needs besides the monitor
needs() {
    case $1 in
        C14)
            variant base json
            variant memchr json,perf_memchr
            variant smallvec json,perf_smallvec
            variant lexical json,perf_lexical
            variant all json,perf_memchr,perf_smallvec,perf_lexical,chrono
            ;;
        C16)
            variant base json
            variant nojson nojson
            variant alloc alloc
            ;;
        C20)
            variant all json,perf_memchr,perf_smallvec,perf_lexical,chrono
            sanitized tsan "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer" -Zbuild-std
            ;;
        C23)
            sanitized nightly ""
            sanitized asan "-Zsanitizer=address"
            sanitized msan "-Zsanitizer=memory -Zsanitizer-memory-track-origins" -Zbuild-std
            RUSTUP_TOOLCHAIN=$NIGHTLY cargo miri setup --offline >"$CARGO_TARGET_DIR/miri.log" 2>&1 || RUSTUP_TOOLCHAIN=$NIGHTLY cargo miri setup >"$CARGO_TARGET_DIR/miri.log" 2>&1
            ;;
        C18)
            rm -f "$CARGO_TARGET_DIR/toon-cli"
            if ! cargo build --offline --locked --manifest-path /repo/Cargo.toml -p toon-cli >"$CARGO_TARGET_DIR/cli.log" 2>&1; then
                tail -40 "$CARGO_TARGET_DIR/cli.log"
                echo "INCONCLUSIVE: toon-cli does not build"
                exit 2
            fi
            cp "$CARGO_TARGET_DIR/debug/toon-cli" "$CARGO_TARGET_DIR/toon-cli"
            ;;
        C19)
            rm -f "$CARGO_TARGET_DIR/release/toonwasmmon"
            if ! (cd "$VERIF/wasm" && cargo build --offline --locked --release >"$CARGO_TARGET_DIR/wasm.log" 2>&1); then
                tail -40 "$CARGO_TARGET_DIR/wasm.log"
                echo "INCONCLUSIVE: the monitor of the bindings does not build"
                exit 2
            fi
            ;;
    esac
}

build "${1:-}"
BIN=$CARGO_TARGET_DIR/release/toonmon
case ${1:-} in
    build) exit 0 ;;
    replay)
        needs "$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)"
        exec "$BIN" replay "$2" "$VERIF" ;;
    "") echo "usage: check.sh <property>"; exit 64 ;;
    *)
        needs "$1"
        exec "$BIN" check "$1" "$SEED" "$TIER" "$VERIF" ;;
esac
