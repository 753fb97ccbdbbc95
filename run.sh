#!/bin/bash
# bash /verif/run.sh <property id> [quick|thorough]   or   bash /verif/run.sh <property id> replay FILE
# Builds the checker of a property from /repo's working tree and runs it.
# Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed. Exit 2: no answer.
id=${1:?usage: run.sh ID [quick|thorough]}
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTC_WRAPPER RUSTFLAGS
export CARGO_TARGET_DIR=${VERIF_TARGET:-$VERIF_DIR/target}
# any change of content in the sources rebuilds them, whatever their time stamps
export REPO_SRC_HASH=$(find /repo/crates -name target -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
cd "$VERIF_DIR/harness" || exit 2
build() { # crate, target directory, extra cargo arguments
    CARGO_TARGET_DIR=$2 cargo build --offline --locked -q -p "$1" "${@:3}" >"$VERIF_DIR/target/build-$1.log" 2>&1 && return 0
    tail -40 "$VERIF_DIR/target/build-$1.log"; echo "$id: the checker does not build"; return 1
}
mkdir -p "$VERIF_DIR/target" "$VERIF_DIR/evidence"
[ "$2" = replay ] || rm -f "$VERIF_DIR/evidence/$id.json" "$VERIF_DIR/evidence/$id".*.json
case $id in
    C01|C10) bin=chk-direct ;;
    C0[2-9]) bin=chk-crypto ;;
    C1[1-4]) bin=chk-gadgets ;;
    C1[5-9]|C26) bin=chk-epoch ;;
    C2[0-5]) bin=chk-sys ;;
    *) echo "unknown property $id"; exit 2 ;;
esac
build $bin "$CARGO_TARGET_DIR" || exit 2
[ -n "$VERIF_BUILD_ONLY" ] && exit 0
[ "$2" = replay ] && exec "$CARGO_TARGET_DIR/debug/$bin" --replay "$3"
"$CARGO_TARGET_DIR/debug/$bin" "$id"
exit $?
