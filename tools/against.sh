#!/bin/bash
# against.sh TREE PROP...: runs the quick checks against another source tree (development only).
here=$(cd "$(dirname "$0")/.." && pwd)
tree=$1; shift
e=$(mktemp -d /tmp/wpkev.XXXXXXXX)
for p in "$@"; do
	WPK_TREE=$tree WPK_EVID=$e VERIF_SEED=${VERIF_SEED:-1} timeout 900 "$here/check.sh" "$p" ${TIER:-quick} >"$e/$p.out" 2>&1
	echo "$p rc=$? $(grep -c ^VIOLATION "$e/$p.out") $(grep -m1 ^case "$e/$p.out" | cut -c1-${W:-220})"
	[ -n "$SHOW" ] && cat "$e/$p.out"
done
rm -rf -- "$e"
