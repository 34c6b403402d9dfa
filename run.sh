#!/bin/bash
# run.sh <ID> [quick|thorough]   build the check of a property from /repo's working tree and run it
# run.sh replay <file>           run one recorded case again
# run.sh build                   build everything (setup)
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUST_BACKTRACE=0 RUSTFLAGS=-Awarnings
export MC_VERIF="$here"
target="$here/target"
build() { # build the named binaries
    (cd "$here/mc" && cargo build --locked --offline -q --target-dir "$target" "$@") || { echo "build failed" >&2; exit 2; }
}
if [ "$1" = build ]; then build --bins; exit 0; fi
tier="${2:-${VERIF_TIER:-quick}}"; id="$1"; arg=()
if [ "$1" = replay ]; then
    file="$(readlink -f "$2")"
    id="$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$file")"
    tier=replay; arg=("$file")
fi
bin="$(echo "$id" | tr A-Z a-z)"
build --bin "$bin" --bin chop
export MC_CHOP="$target/debug/chop" VERIF_TIER="${VERIF_TIER:-quick}"
exec "$target/debug/$bin" "$tier" "${arg[@]}"
