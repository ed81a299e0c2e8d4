#!/bin/bash
# Builds everything once so that the checks find a warm build cache.
set -eu
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GONOSUMDB='*' GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=0
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verifsetup.XXXXXX")
trap 'rm -rf -- "${scratch:?}"' EXIT
cd "$here/sim"
mkdir -p "$scratch/ov" "$scratch/ovcmd"
go build -o "$scratch/instr" ./instr
"$scratch/instr" -repo /repo -out "$scratch/ov"
go build -overlay "$scratch/ov/overlay.json" -o "$scratch/sim" .
go build -o "$scratch/sim" .
if [ -f "$here/sim/tool/harness.go.txt" ]; then
	"$scratch/instr" -repo /repo -out "$scratch/ovcmd" -cmd "$here/sim/tool/harness.go.txt"
	go test -c -overlay "$scratch/ovcmd/overlay.json" -o "$scratch/worker" github.com/tokenized/txbuilder/cmd
fi
echo "setup done"
