#!/bin/bash
# usage: check.sh ID [quick|thorough]     decide one property on /repo's working tree
#        check.sh replay FILE             run one recorded case again, verbosely
#        check.sh count ID [tier]         sizes of the explored spaces
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" TZ=UTC LC_ALL=C.UTF-8 HOME="${HOME:-/root}"
unset COINDB GNUCASHDB
build=$(mktemp -d "${TMPDIR:-/tmp}/coinmc-build.XXXXXX") || exit 2
trap 'rm -rf "$build"' EXIT
python3 tools/build.py "$build" mc || exit 2
case "$1" in
setup) # warm up the build cache
    python3 tools/build.py "$build" bin $(cat tools/binaries.txt) ;;
replay)
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["Property"])' "$2") || exit 2
    python3 tools/build.py "$build" bin $("$build/mc" bins "$id") || exit 2
    "$build/mc" replay "$2" "$build/bin" -v ;;
count) "$build/mc" count "$2" "${3:-quick}" ;;
*)
    bins=$("$build/mc" bins "$1") || exit 2
    if [ -n "$bins" ]; then python3 tools/build.py "$build" bin $bins || exit 2; fi
    "$build/mc" run "$1" "${2:-${VERIF_TIER:-quick}}" "$build/bin" ;;
esac
