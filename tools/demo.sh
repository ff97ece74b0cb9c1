#!/bin/bash
# Runs main.go (beside this file) against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$t/o.json"
go build -overlay "$t/o.json" -o "$t/demo" ./zz_demo || exit 1
cd "$t" && DEMO_DIR="$t" timeout -k 5 120 ./demo
