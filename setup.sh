#!/bin/bash
# Checks that the tools are there and that everything compiles and parses.
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
d=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -r harness "$d/h"
( cd "$d/h" && go run ./xform -src /repo -dst impl -shim -extra && go build -o "$d/ex" ./explore && go build -o "$d/sq" ./seq )
for m in MapOps SkipMapAbs TraceMon SeqMon SkipMapImpl; do
  cp spec/$m.tla "$d/"
done
( cd "$d" && for m in SkipMapAbs TraceMon SeqMon SkipMapImpl; do tla-sany $m.tla >sany.log 2>&1 || { cat sany.log; exit 1; }; done )
echo ready
