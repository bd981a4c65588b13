#!/bin/bash
# ./run.sh <ID> quick|thorough   build the harness against /repo's working tree and decide one property
# ./run.sh replay <file>         re-execute a recorded counterexample
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
[ "$1" = replay ] && set -- replay "$(realpath "$2")"
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
cd "$VERIF_DIR/mc" || exit 2
id="$1" tier="${2:-quick}"

# build PROFILE TARGETDIR [cargo args]: cargo trusts mtimes, so the fingerprints of the crate under
# test are dropped first: it is recompiled from /repo's current tree on every run.
build() {
    local profile=$1 dir=$2 sub=$1; shift 2
    [ "$profile" = dev ] && sub=debug
    rm -rf "$dir/$sub"/.fingerprint/unicode-normalization-* "$dir/$sub"/.fingerprint/mc-*
    if ! cargo build --offline --locked --profile "$profile" --target-dir "$dir" "$@" > "$dir.log" 2>&1; then
        tail -40 "$dir.log" >&2
        echo "machinery error: the harness does not build against /repo ($profile $*)" >&2
        return 2
    fi
}
configs() {
    # the four configurations, built side by side
    build release "$T/main" & local a=$!
    build release "$T/nostd" --no-default-features & local b=$!
    build dev "$T/dev" & local c=$!
    build dev "$T/devnostd" --no-default-features & local d=$!
    wait $a || exit 2
    export VERIF_BROKEN=
    wait $b || VERIF_BROKEN="$VERIF_BROKEN no_std-release:$T/nostd.log"
    wait $c || VERIF_BROKEN="$VERIF_BROKEN std-debug:$T/dev.log"
    wait $d || VERIF_BROKEN="$VERIF_BROKEN no_std-debug:$T/devnostd.log"
    export VERIF_BINS="std-release=$T/main/release/mc,no_std-release=$T/nostd/release/mc,std-debug=$T/dev/debug/mc,no_std-debug=$T/devnostd/debug/mc"
}
mkdir -p "$VERIF_DIR/mc/target"
T="$VERIF_DIR/mc/target"

case "$id" in
    replay)
        case "$(grep -o '"property":"C[0-9]*"' "$2")" in
            *C16*|*C21*) build checked "$T/checked" || exit 2; exec "$T/checked/checked/mc" replay "$2" ;;
            *C22*) configs ;;
            *C23*) exec python3 "$VERIF_DIR/tools/c23.py" quick ;;
            *) build release "$T/main" || exit 2 ;;
        esac
        exec "$T/main/release/mc" replay "$2" ;;
    C16|C21)
        # overflow and debug checks on: nothing may panic in any build
        build checked "$T/checked" || exit 2
        exec "$T/checked/checked/mc" check "$id" "$tier" ;;
    C22)
        configs
        exec "$T/main/release/mc" check "$id" "$tier" ;;
    C23)
        exec python3 "$VERIF_DIR/tools/c23.py" "$tier" ;;
    setup)
        build release "$T/main" || exit 2
        build checked "$T/checked" || exit 2
        configs
        exit 0 ;;
    *)
        build release "$T/main" || exit 2
        exec "$T/main/release/mc" check "$id" "$tier" ;;
esac
