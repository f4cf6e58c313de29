#!/bin/bash
# build.sh REPO OUT PROPERTY: instruments REPO and builds the simulator for it.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
repo="$1"; out="$2"; prop="$3"
mkdir -p "$out"
rm -rf "$out/sim" "$out/inst"
cp -r "$here/sim" "$out/sim"
cd "$out/sim"
sed -i "s#=> /repo#=> $repo#" go.mod
go build -o "$out/instrument" ./cmd/instrument
"$out/instrument" -repo "$repo" -out "$out/inst"
race=""
case " C01 C02 C03 C04 C05 C09 C10 C13 C14 C15 all " in *" $prop "*) race=1 ;; esac
go build -overlay "$out/inst/overlay.json" -o "$out/sim-plain" ./cmd/simcheck &
p1=$!
if [ -n "$race" ]; then
	go build -race -overlay "$out/inst/overlay.json" -o "$out/sim-race" ./cmd/simcheck
fi
wait $p1
