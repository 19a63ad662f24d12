#!/bin/bash
# run.sh <ID> [quick|thorough]   decide one property on /repo's working tree
# run.sh replay <file>           run a recorded violation again
set -u
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB=* GONOSUMCHECK=1 GOWORK=off
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
ID=${1:?usage: run.sh ID [tier]}
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
BASE=/dev/shm; [ -w "$BASE" ] || BASE=/tmp
S=$(mktemp -d "$BASE/mc.XXXXXXXX") || exit 3
chmod 755 "$S"
trap 'chmod -R u+rwX "$S" 2>/dev/null; rm -rf "$S"' EXIT
trap 'exit 3' INT TERM

PROP=$ID
[ "$ID" = replay ] && PROP=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$2")
TAGS=
case "$PROP" in C20|C21) TAGS=mcfault ;; C01) TAGS=mcsched ;; esac

build() {
  ( cd "$REPO" && go build -o "$S/yot" ./cmd/yot ) || return 1
  # the standard library with fault points in package os
  if [ "$TAGS" = mcfault ]; then python3 "$VERIF/std/gen.py" "$S/std" >"$S/std.json" || return 1; fi
  # the runtime with a controlled scheduler, for the binary only
  if [ "$TAGS" = mcsched ]; then
    python3 "$VERIF/std/sched.py" "$S/sched" >"$S/sched.map" &&
      python3 -c 'import json,sys;print(json.dumps({"Replace":json.load(open(sys.argv[1]))}))' "$S/sched.map" >"$S/sched.json" || return 1
    ( cd "$REPO" && go build -overlay "$S/sched.json" -o "$S/yots" ./cmd/yot && go build -race -overlay "$S/sched.json" -o "$S/yotr" ./cmd/yot ) || return 1
    ( cd "$VERIF/std/selftest" && export GOFLAGS= GO111MODULE=off && go build -overlay "$S/sched.json" -o "$S/selfs" main.go && go build -race -overlay "$S/sched.json" -o "$S/selfr" main.go ) || return 1
  fi
  # the harness is compiled as a package of the module, without touching /repo
  python3 - "$REPO" "$VERIF" "$S/std.json" >"$S/overlay.json" <<'P' || return 1
import sys,os,json
repo,verif,std=sys.argv[1:]
d=verif+'/mc'
r={f"{repo}/internal/verifmc/{f}":f"{d}/{f}" for f in sorted(os.listdir(d)) if f.endswith('.go')}
if os.path.exists(std): r.update(json.load(open(std)))
print(json.dumps({"Replace":r}))
P
  cp "$REPO/go.mod" "$S/go.mod" && cp "$REPO/go.sum" "$S/go.sum" || return 1
  if [ "$TAGS" = mcfault ]; then
    ( cd "$REPO" && go build -modfile "$S/go.mod" -overlay "$S/overlay.json" -o "$S/yotf" ./cmd/yot ) || return 1
  fi
  ( cd "$REPO" && go build -tags "$TAGS" -modfile "$S/go.mod" -overlay "$S/overlay.json" -o "$S/mc" ./internal/verifmc ||
    go build -tags "$TAGS mccli" -modfile "$S/go.mod" -overlay "$S/overlay.json" -o "$S/mc" ./internal/verifmc ) || return 1
}
if ! build >"$S/build.log" 2>&1; then cat "$S/build.log" >&2; echo "build failed" >&2; exit 3; fi
DL=600s; [ "$TIER" = thorough ] && DL=${VERIF_DEADLINE:-3h}
# endless expansion must not take the machine's memory
[ "$PROP" = C21 ] && ulimit -v 6000000
case "$ID" in
  replay) "$S/mc" replay "$2" -yot "$S/yot" -scratch "$S" ;;
  *) "$S/mc" check -id "$ID" -tier "$TIER" -seed "$SEED" -yot "$S/yot" -scratch "$S" -verif "$VERIF" -deadline "$DL" ${VERIF_KEY:+-key "$VERIF_KEY"} ;;
esac
exit $?
