#!/bin/bash
# run.sh ID quick|thorough        build from /repo's working tree and run the check of property ID
# run.sh ID replay FILE           re-run a recorded failure
# run.sh build                    only build
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=${VERIF_OUT:-$here} # development only: another folder for evidence and replays
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOWORK=off CGO_ENABLED=0
repo=${VERIF_REPO:-/repo} # development only: another tree
out=$here/.build
mkdir -p "$out" || exit 2
tmp=$(mktemp -d "$out/b.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
overlay() {
  python3 - "$here/harness" "$repo/zz_verif" > "$tmp/overlay.json" <<'P'
import json,os,sys
src,dst=sys.argv[1:3]
m={}
for d,_,fs in os.walk(src):
    for f in fs:
        if f.endswith('.go'):
            p=os.path.join(d,f); m[os.path.join(dst,os.path.relpath(p,src))]=p
json.dump({"Replace":m},sys.stdout)
P
}
build() { # package tags output
  (cd "$repo" && go build $VERIF_BUILDFLAGS -overlay "$tmp/overlay.json" -tags "$2" -o "$3" "./zz_verif/$1") 
}
case "$1" in
  V0[2-9]*|C05|C08) pkg=values; tags=verif;;
  *) pkg=core; tags=;;
esac
overlay || exit 2
if [ "$1" = build ]; then
  build core "" "$tmp/core" || exit 2
  if [ -d "$here/harness/values" ]; then build values verif "$tmp/values" || exit 2; fi
  exit 0
fi
if [ $pkg = values ] && ! build $pkg "$tags" "$tmp/$pkg" 2> "$tmp/err"; then
  # an unexported function that some hook passes through to has changed: keep only the hooks this property needs
  python3 "$here/hookfallback.py" "$1" "$repo" > "$tmp/hooks.go" &&
  python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); d["Replace"][sys.argv[2]]=sys.argv[3]; json.dump(d,open(sys.argv[1],"w"))' \
    "$tmp/overlay.json" "$repo/verif_hooks.go" "$tmp/hooks.go"
fi
if ! build $pkg "$tags" "$tmp/$pkg"; then
  echo "the harness does not build against this tree: no verdict" >&2
  exit 2
fi
case "$1" in
  A01|A08|H03|C01|C05|C07) # schedules: also under the race detector, where it can be built
    (cd "$repo" && CGO_ENABLED=1 go build -race -overlay "$tmp/overlay.json" -tags "$tags" -o "$tmp/race" ./zz_verif/$pkg) 2> "$tmp/err" &&
    export VERIF_RACE_BIN="$tmp/race";;
esac
tier=${2:-${VERIF_TIER:-quick}}
if [ "$tier" = replay ]; then
  "$tmp/$pkg" replay "$1" "$3"; exit $?
fi
"$tmp/$pkg" check "$1" "$tier"
exit $?
