#!/bin/bash
# check.sh <ID>             decide one property against /repo's working tree
# check.sh replay <FILE>    run one saved case again
# check.sh <vh args...>     anything else is passed to the harness
# Exit 0 held, 1 violated (with a VIOLATION line), 2 the check itself failed.
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
. /opt/vp/env.sh
umask 022
scratch=$(mktemp -d /tmp/pkgrverif.XXXXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM
build() {
	(cd /repo && go build -buildvcs=false -o "$scratch/pkgr" ./cmd/pkgr) >"$scratch/build.log" 2>&1 || { echo "cannot build pkgr from /repo"; cat "$scratch/build.log"; return 1; }
	(cd "$ROOT/harness" && export GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS="-mod=mod" &&
		CGO_ENABLED=0 go build -buildvcs=false -o "$scratch/fakeR" ./fakeR &&
		CGO_ENABLED=0 go build -buildvcs=false -o "$scratch/crashat" ./crashat &&
		go build -buildvcs=false -o "$scratch/vh" ./cmd/vh) >"$scratch/build.log" 2>&1 || { echo "cannot build the harness"; cat "$scratch/build.log"; return 1; }
}
build || exit 2
# pkgr is only ever run as a user who owns nothing but the scratch directory, so that
# whatever a broken pkgr deletes or overwrites, it can reach nothing else.
mkdir -p "$scratch/w" "$scratch/root/evidence" "$scratch/root/replays"
cp -r "$ROOT/corpus" "$scratch/root/" 2>/dev/null
cp "$ROOT/known-findings.txt" "$scratch/root/" 2>/dev/null
export VERIF_ROOT="$scratch/root" VERIF_PKGR="$scratch/pkgr" VERIF_FAKER="$scratch/fakeR" VERIF_CRASHAT="$scratch/crashat" VERIF_SCRATCH="$scratch/w"
export HOME="$scratch/w" TMPDIR="$scratch/w"
as=()
chmod 755 "$scratch"
if [ "$(id -u)" = 0 ] && setpriv --reuid=65534 --regid=65534 --clear-groups -- test -x "$scratch/vh" 2>/dev/null; then
	chown -R 65534:65534 "$scratch/w" "$scratch/root" && as=(setpriv --reuid=65534 --regid=65534 --clear-groups --)
fi
cd "$scratch/w" || exit 2
case "${1:-}" in
C[0-9]*)
	"${as[@]}" "$scratch/vh" check "$1"
	rc=$?
	mkdir -p "$ROOT/evidence" "$ROOT/replays"
	cp "$scratch"/root/evidence/*.json "$ROOT/evidence/" 2>/dev/null
	cp "$scratch"/root/replays/*.json "$ROOT/replays/" 2>/dev/null
	;;
replay)
	f=$2
	case $f in /*) ;; *) f=$ROOT/$f ;; esac
	cp "$f" "$scratch/root/case.json" && chmod 644 "$scratch/root/case.json" || exit 2
	"${as[@]}" "$scratch/vh" replay "$scratch/root/case.json" ${3:+"$3"}
	rc=$?
	;;
*)
	"${as[@]}" "$scratch/vh" "$@"
	rc=$?
	;;
esac
cd "$ROOT" || exit 2
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then rc=2; fi
if [ -z "${VERIF_KEEP:-}" ]; then rm -rf "$scratch"; else echo "kept $scratch"; trap - EXIT; fi
exit $rc
