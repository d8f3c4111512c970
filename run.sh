#!/bin/bash
# usage: run.sh <property> quick|thorough    (exit 0: held on everything explored; 1: VIOLATION; 2: could not run)
# usage: run.sh --build                      (build only)
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
case "$1" in
    C23) crates="mc mc-nostd" ;;
    C26) crates=mc-factory ;;
    --build) crates="mc mc-nostd mc-factory" ;;
    *) crates=mc ;;
esac
# the test helpers name their parent crate by its place, so mc-factory reaches /repo by a link
case "$crates" in *mc-factory*) ln -sfn /repo mc-factory/fuel-tx || exit 2 ;; esac
for c in $crates; do
    # /repo's code is always compiled again, whatever its time stamps say
    for f in "$PWD/$c"/target/release/.fingerprint/fuel-tx-*; do
        [ -e "$f" ] && rm -rf -- "$f"
    done
    if ! cargo build --release --offline --locked -q --manifest-path "$c/Cargo.toml" >"/tmp/verif-build.$$" 2>&1; then
        echo "build of $c against /repo failed:" >&2
        grep -v '^warning' "/tmp/verif-build.$$" | tail -60 >&2
        rm -f -- "/tmp/verif-build.$$"
        exit 2
    fi
    rm -f -- "/tmp/verif-build.$$"
done
[ "$1" = --build ] && exit 0
if [ "$1" = C23 ]; then
    # the same spaces on the full build, then on the reduced one
    mc/target/release/mc run C23 "${2:-quick}" || exit $?
    export MC_MERGE=1
    exec mc-nostd/target/release/mc-nostd run C23 "${2:-quick}"
fi
exec "$crates/target/release/$crates" run "$1" "${2:-quick}"
