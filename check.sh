#!/bin/bash
# Runs the check of one property against /repo's current working tree.
#   check.sh <property> [quick|thorough]
#   check.sh replay <replay file>
# Environment: VERIF_SEED (default 1), SCALE (multiplies the number of cases).
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/target/build"
unset RUSTFLAGS RUSTDOCFLAGS CARGO_ENCODED_RUSTFLAGS
bin="$here/target/bin"
mkdir -p "$bin" "$here/evidence"
# Builds the harness against /repo with the library features of configuration $1.
build() {
    local feat
    case $1 in
        default) feat= ;;
        full|most) feat=$1 ;;
        *) feat=${1//_/,} ;;
    esac
    if ! (cd "$here/harness" && cargo build --offline --locked -q --features "$feat") >"$bin/$1.log" 2>&1; then
        cat "$bin/$1.log" >&2
        echo "the harness does not build ($1)" >&2
        exit 2
    fi
    cp -f "$CARGO_TARGET_DIR/debug/harness" "$bin/$1.tmp.$$" && mv -f "$bin/$1.tmp.$$" "$bin/$1" || exit 2
}
json() { python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))[sys.argv[2]])' "$1" "$2"; }
if [ "${1:-}" = replay ]; then
    prop=$(json "$2" property)
    main=$(json "$2" config)
else
    prop=${1:?property}
    main=default
fi
tier=${2:-quick}
also=
peers=
case $prop in
    C23) also=most ;;
    C19) also="full double" ;;
    C21) peers=full ;;
    C24)
        peers="long short double long_double short_double"
        also=$peers
        ;;
    *) also=full ;;
esac
bins=()
for c in $(printf '%s\n' default $also $peers | awk '!seen[$0]++'); do
    build "$c"
done
if [ -n "$peers" ]; then
    for c in $peers; do
        export "HARNESS_PEER_$c=$bin/$c"
    done
fi
if [ "${1:-}" = replay ]; then
    choices="$bin/choices.$$"
    json "$2" choices | tr -d '[] ' >"$choices"
    "$bin/$main" one "$prop" "$(json "$2" arm)" --verif "$here" --choices "$choices"
    code=$?
    rm -f "$choices"
    exit $code
fi
for c in default $also; do
    bins+=(--bin "$c=$bin/$c:1")
done
exec "$bin/default" run "$prop" --verif "$here" --tier "$tier" --seed "${VERIF_SEED:-1}" --scale "${SCALE:-1}" "${bins[@]}"
