#!/bin/bash
# run.sh ID quick|thorough: build the harness (and the command, where the check runs it) from /repo, then run one check.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true
build() {
    cargo build --offline --quiet --manifest-path harness/Cargo.toml --target-dir target "$@" 2>target-build.log
}
# C19 also looks at the JavaScript options, which need the hook.
{ [ "$1" = C19 ] && build --features js; } || build || { cat target-build.log >&2; exit 2; }
rm -f "$VERIF_DIR/target-build.log"
case "$1" in
C15|C16|C17|C18|C19)
    cargo build --offline --quiet --manifest-path /repo/Cargo.toml --bin hongdown --target-dir target-cli >&2 || exit 2
    export HV_BIN="$PWD/target-cli/debug/hongdown" ;;
esac
if [ "$1" = C18 ]; then
    gcc -shared -fPIC -O1 -o target/etc.so harness/shim/etc.c -ldl >&2 || exit 2
    export HV_SHIM="$PWD/target/etc.so"
fi
exec target/debug/hv check "$1" "$2"
