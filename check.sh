#!/bin/bash
# Usage: check.sh PROPERTY [--replay FILE] [--runs N]
# Builds the simulator from the current working tree of the repository and runs one check.
# VERIF_SEED (default 1) and VERIF_TIER (quick or thorough) select the exploration.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
prop=${1:?property}
shift
repo=/repo
export PATH=/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GONOSUMDB='*' GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=0
seed=${VERIF_SEED:-1}
tier=${VERIF_TIER:-quick}
wall=5m
[ "$tier" = thorough ] && wall=${VERIF_WALL:-10m}
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verifsim.XXXXXX") || exit 2
trap 'rm -rf -- "${scratch:?}"' EXIT
export TMPDIR=$scratch
cd "$here/sim" || exit 2

run() { "$@" >"$scratch/log" 2>&1 || { echo "ERROR: $*" >&2; cat "$scratch/log" >&2; exit 2; }; }

mkdir -p "$scratch/ov" "$scratch/ovcmd"
run go build -o "$scratch/instr" ./instr
run "$scratch/instr" -repo "$repo" -out "$scratch/ov"
case $prop in
C20|C21|C22|C23)
	run "$scratch/instr" -repo "$repo" -out "$scratch/ovcmd" -cmd "$here/sim/tool/harness.go.txt"
	run go build -o "$scratch/sim" .
	run go test -c -overlay "$scratch/ovcmd/overlay.json" -o "$scratch/worker" github.com/tokenized/txbuilder/cmd
	set -- -worker "$scratch/worker" -workerargs "-test.run=TestVerifWorker -test.timeout=0" "$@"
	;;
*)
	run go build -overlay "$scratch/ov/overlay.json" -o "$scratch/sim" .
	;;
esac
args=()
for a in "$@"; do
	case $a in
	--replay) a=-replay ;;
	--runs) a=-runs ;;
	esac
	args+=("$a")
done
for i in "${!args[@]}"; do
	if [ "${args[$i]}" = -replay ]; then
		f=${args[$((i + 1))]}
		case $f in /*) ;; *) args[$((i + 1))]=$OLDPWD/$f ;; esac
	fi
done
"$scratch/sim" -prop "$prop" -tier "$tier" -seed "$seed" -scratch "$scratch" -verif "$here" \
	-sites "$scratch/ov/sites.json" -wall "$wall" "${args[@]+"${args[@]}"}"
exit $?
