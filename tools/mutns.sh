#!/bin/bash
# tools/mutns.sh RESULTS FILE:PROP,PROP... : tools/mutate.py on a scratch copy of
# /repo that is mounted in its place
if [ -z "$IN_NS" ]; then
    S=$(mktemp -d /tmp/mut-XXXXXX)
    cp -a /repo/. "$S"
    V=$(dirname "$(dirname "$(realpath "$0")")")
    C=$(mktemp -d /tmp/mutverif-XXXXXX)
    cp -a "$V/lib" "$V/spec" "$V/harness" "$V/known" "$V/tools" "$V/known_findings.txt" "$C"
    mkdir -p /tmp/mutcache
    IN_NS=1 S=$S VERIF_TLC_CACHE=/tmp/mutcache VERIF_SEED=1 VERIF_WORK=$C/mutwork \
        unshare -m bash "$C/tools/mutns.sh" "$@"
    rm -rf "$S" "$C"
    exit
fi
mount --bind "$S" /repo
V=$(dirname "$(dirname "$(realpath "$0")")")
exec python3 "$V/tools/mutate.py" run "$@"
