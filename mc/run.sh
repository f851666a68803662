#!/bin/bash
# run.sh <ID> quick|thorough          build from /repo's working tree and run the check
# run.sh <ID> replay FILE             re-run one recorded execution
# run.sh setup                        build all checks
# MC_PROFILE=checked|release|both     with debug assertions and overflow checks, without, one after the other
set -u
ID=${1:?property or setup}; TIER=${2:-${VERIF_TIER:-quick}}
HERE=$(cd "$(dirname "$0")" && pwd); VERIF=$(dirname "$HERE")
export HOME=${HOME:-/root} PATH="${CARGO_HOME:-${HOME:-/root}/.cargo}/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="--cap-lints allow" CARGO_TARGET_DIR="$HERE/target"
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS
export MC_REPLAYS="$VERIF/replays" MC_EVIDENCE="$VERIF/evidence/$ID.json" MC_KNOWN="$VERIF/known_findings.txt"
bin=$(echo "$ID" | tr 'A-Z' 'a-z')
# cargo judges by modification times: forget its verdict on the library
rm -rf "$HERE"/target/debug/.fingerprint/flatdata-* "$HERE"/target/release/.fingerprint/flatdata-*
build() { # profile flag
    (cd "$HERE" && cargo build -q --offline -p checks ${sel:---bin "$bin"} $1) >&2 || { echo "$ID: build failed" >&2; exit 2; }
}
if [ "$ID" = setup ]; then
    sel=--bins; build "" ; build --release; exit 0
fi
# where index or offset arithmetic could wrap around, both builds are judged
case "$ID" in
    C01|C02|C04|C06|C07|C08|C09|C18) both=both;;
    *) both=checked;;
esac
profile=${MC_PROFILE:-$both}
if [ "$TIER" = replay ]; then
    profile=checked; grep -q '^build release' "${3:?replay file}" && profile=release
fi
checked() { build ""; MC_BUILD=checked exec "$HERE/target/debug/$bin" "$@"; }
case "$profile" in
    release) build --release; MC_BUILD=release exec "$HERE/target/release/$bin" "${@:2}";;
    checked) checked "${@:2}";;
    both)
        build --release
        E="$HERE/target/$ID-release.json"; rm -f "$E"
        MC_BUILD=release MC_EVIDENCE="$E" "$HERE/target/release/$bin" "${@:2}"; rc=$?
        if [ $rc != 0 ]; then
            mkdir -p "$VERIF/evidence"; [ -f "$E" ] && cp "$E" "$MC_EVIDENCE"
            [ $rc = 1 ] && exit 1
            exit 2
        fi
        export MC_EMBED="$E"
        checked "${@:2}";;
esac
