#!/bin/bash
# run.sh ID quick|thorough          run the check of property ID against /repo's working tree
# run.sh ID replay FILE             replay a recorded violation
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
id="$1"; mode="${2:-quick}"
pkg="./checks/$(echo "$id" | tr 'A-Z' 'a-z')"
[ -d "$pkg" ] || { echo "no check for $id"; exit 2; }
work=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
scratch="$work"
if [ -d /dev/shm ] && [ -w /dev/shm ]; then
  scratch=$(mktemp -d /dev/shm/verif.XXXXXX) || scratch="$work"
fi
export VERIF_SCRATCH="$scratch"
trap 'rm -rf "$work" "$scratch"' EXIT
export TMPDIR="$work"
mkdir -p evidence
noanswer() {
  # the tree builds as it is, but not in its instrumented form: nothing was explored
  cat > "evidence/$id.json" <<J
{"property":"$id","tier":"$mode","seed":${VERIF_SEED:-0},"level":"other","coverage":{"explanation":"$1","exhaustive":false},"wall_s":0}
J
  echo "$id: $1"
  exit "$2"
}
go build -o "$work/rewrite" ./tools/rewrite || exit 2
if ! "$work/rewrite" -out "$work" "$pkg" 2>"$work/rewrite.log"; then
  cat "$work/rewrite.log" >&2
  echo '{"Replace":{}}' > "$work/overlay.json"
fi
if ! go build -overlay "$work/overlay.json" -o "$work/check" "$pkg" 2>"$work/build.log"; then
  cat "$work/build.log" >&2
  go build -o /dev/null "$pkg" 2>/dev/null || noanswer "the tree does not build" 2
  noanswer "the instrumented tree does not build; nothing explored" 0
fi
if grep -qs "Race: *true" "$pkg"/*.go; then
  nr="-d=checkptr=0 -race=false -l"
  if ! go build -race -gcflags=all=-d=checkptr=0 "-gcflags=verif/vsched=$nr" "-gcflags=verif/shim/...=$nr" \
      -overlay "$work/overlay.json" -o "$work/check.race" "$pkg" 2>"$work/build.log"; then
    cat "$work/build.log" >&2
    noanswer "the race build failed" 2
  fi
  export VERIF_RACE_BIN="$work/check.race"
fi
if [ "$mode" = replay ]; then
  "$work/check" -replay "$3"
else
  "$work/check" -tier "$mode"
fi
rc=$?
exit $rc
