#!/bin/bash
# check.sh PROPERTY [quick|thorough] [CASE]: builds the harness against /repo's working tree and decides one property.
# Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Anything else: no verdict.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
work=$(mktemp -d /tmp/wpkverif.XXXXXXXX) || exit 2
trap 'rm -rf -- "$work"' EXIT
trap 'exit 2' TERM INT
chmod 755 "$work"
# development only: another tree (its path has to contain /repo/) and another place for the evidence
repo=${WPK_TREE:-/repo}
evid=${WPK_EVID:-$here/evidence}
mod=
if [ "$repo" != /repo ]; then
	sed "s#=> /repo\$#=> $repo#" "$here/harness/go.mod" >"$work/go.mod"
	cp "$here/harness/go.sum" "$work/go.sum"
	mod=-modfile=$work/go.mod
fi
race=
case $prop in
C13|C14|C15|C34|C41) race=1 ;;
esac
cd "$here/harness" || exit 2
if [ -n "$race" ]; then
	CGO_ENABLED=1 go build $mod -race -o "$work/harness" . >"$work/build.log" 2>&1 || { cat "$work/build.log"; echo "build failed"; exit 2; }
	args=-race
else
	CGO_ENABLED=0 go build $mod -gcflags='github.com/schwarzlichtbezirk/wpk/...=-d=checkptr=1' -o "$work/harness" . >"$work/build.log" 2>&1 || { cat "$work/build.log"; echo "build failed"; exit 2; }
fi
case $prop in
C16|C17|C19|C28|C31|C35|C36|C37|C38|C39|C40)
	mkdir "$work/bin"
	(cd "$repo" && CGO_ENABLED=0 go build -o "$work/bin/" ./cmd/pack ./cmd/extract ./cmd/build) >"$work/build.log" 2>&1 || { cat "$work/build.log"; echo "build failed"; exit 2; }
	args="$args -bins $work/bin"
	;;
esac
if [ -n "$3" ]; then
	args="$args -case $3"
fi
mkdir "$work/tmp"
chmod 1777 "$work/tmp"
export TMPDIR=$work/tmp
cd "$here" || exit 2
"$work/harness" -prop "$prop" -tier "$tier" -seed "$seed" -verif "$here" -evidence "$evid/$prop.json" $args
exit $?
