#!/bin/bash
# tools/try.sh <patch> <property>...: runs checks on a copy of /repo with a patch
# (mounted in the place of /repo in a mount namespace of its own)
if [ -z "$IN_NS" ]; then
    S=$(mktemp -d /tmp/try-XXXXXX)
    cp -a /repo/. "$S"
    IN_NS=1 S=$S VERIF_WORK=${VERIF_WORK:-/tmp/try-work} unshare -m bash "$0" "$@"
    rm -rf "$S"
    exit
fi
mount --bind "$S" /repo
V=$(dirname "$(dirname "$(realpath "$0")")")
git -C /repo apply $REVERSE "$1" || exit 2
shift
for p in "$@"; do
    python3 "$V/lib/check.py" "$p" --tier "${TIER:-quick}" > /tmp/try.$$ 2>&1; r=$?
    echo "check $p exits $r $(grep -A1 -m1 '^VIOLATION' /tmp/try.$$ | tr '\n' ' ' | cut -c1-400)"
    [ $r = 1 ] || tail -3 /tmp/try.$$
done
