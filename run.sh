#!/bin/bash
# run.sh <ID> [--replay FILE]: rebuilds the harness from /repo's current tree and runs the check of one property.
set -u
cd "$(dirname "$0")"
export VT6CHECK_VERIF_DIR="$PWD"
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
mkdir -p target
exec 9>target/.runlock
flock 9
# cargo judges freshness by modification times, which a change of /repo's tree may have preserved
rm -rf "$PWD"/target/{debug,plain}/.fingerprint/vt6-* "$PWD"/target/{debug,plain}/incremental/vt6-*
log="$PWD/target/build-$1.log"
if ! cargo build --offline --manifest-path "$PWD/harness/Cargo.toml" >"$log" 2>&1; then
    tail -50 "$log"
    echo "$1: ERROR: build failed" >&2
    exit 2
fi
# the code of a release build: half of the workers run it
if ! cargo build --offline --profile plain --manifest-path "$PWD/harness/Cargo.toml" >>"$log" 2>&1; then
    tail -50 "$log"
    echo "$1: ERROR: build failed" >&2
    exit 2
fi
bin="$PWD/target/run-$1-$$"
export VT6CHECK_PLAIN="$PWD/target/plain-$$"
cp "$PWD/target/plain/vt6check" "$VT6CHECK_PLAIN"
if [ "$1" = C28 ]; then
    rm -rf "$PWD"/target/example/debug/.fingerprint/vt6-* "$PWD"/target/example/debug/incremental/vt6*
    if ! CARGO_TARGET_DIR="$PWD/target/example" cargo build --offline --manifest-path /repo/example-server/Cargo.toml >>"$log" 2>&1; then
        tail -50 "$log"
        echo "$1: ERROR: build of the example server failed" >&2
        exit 2
    fi
    export VT6CHECK_EXAMPLE="$PWD/target/example-$$"
    cp "$PWD/target/example/debug/vt6-example-server" "$VT6CHECK_EXAMPLE"
fi
cp "$PWD/target/debug/vt6check" "$bin"
if [ "$1" = C29 ]; then
    rm -rf "$PWD"/target/nostd/debug/.fingerprint/vt6-* "$PWD"/target/nostd/debug/incremental/vt6-*
    if ! CARGO_TARGET_DIR="$PWD/target/nostd" cargo build --offline --manifest-path "$PWD/harness-nostd/Cargo.toml" >>"$log" 2>&1; then
        tail -50 "$log"
        if grep -q '^error: could not compile `vt6` ' "$log"; then
            # the same crate has just been built with the standard library
            mkdir -p "$PWD/replays" "$PWD/evidence"
            cp "$log" "$PWD/replays/C29-build.log"
            printf '{"property":"C29","tier":"%s","seed":%s,"level":"exploration","coverage":{"evaluations":1,"distinct_nontrivial":1,"rule":"the crate builds without its standard-library feature","samples":[{"sub":"build","case":"cargo build"}]},"wall_s":0,"violations":1}\n' "${VERIF_TIER:-quick}" "${VERIF_SEED:-1}" >"$PWD/evidence/C29.json"
            echo "C29: the crate does not build without its standard-library feature"
            echo "VIOLATION property=C29 replay=$PWD/replays/C29-build.log"
            exit 1
        fi
        echo "$1: ERROR: build without the standard library failed" >&2
        exit 2
    fi
    export VT6CHECK_NOSTD="$PWD/target/nostd-$$"
    cp "$PWD/target/nostd/debug/vt6nostd" "$VT6CHECK_NOSTD"
fi
# the thorough tier additionally generates under the guidance of code coverage
case "${VERIF_TIER:-quick}:$1" in
thorough:C14 | thorough:C15 | thorough:C2[2-5] | thorough:C2[7-9] | thorough:C34) ;;
thorough:*)
    rm -rf "$PWD"/target/guided/debug/.fingerprint/vt6-* "$PWD"/target/guided/debug/incremental/vt6-*
    if CARGO_TARGET_DIR="$PWD/target/guided" RUSTC_WRAPPER="$PWD/tools/guided-rustc.sh" \
        cargo build --offline --manifest-path "$PWD/harness/Cargo.toml" --features guided >"$log.guided" 2>&1; then
        export VT6CHECK_GUIDED="$PWD/target/guided-$$"
        cp "$PWD/target/guided/debug/vt6check" "$VT6CHECK_GUIDED"
    else
        echo "$1: note: no coverage-guided build (see $log.guided), only random generation"
    fi
    ;;
esac
flock -u 9
"$bin" "$@"
rc=$?
rm -f "$bin" "$VT6CHECK_PLAIN" "$PWD/target/example-$$" "$PWD/target/nostd-$$" "$PWD/target/guided-$$"
exit $rc
