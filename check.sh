#!/bin/bash
# check.sh PROPERTY: builds the instrumented library and the simulator from the
# working tree of /repo and runs the check. VERIF_SEED and VERIF_TIER select the
# seed and the tier; SIM_SECONDS overrides the exploration time.
set -u
prop="$1"
here="$(cd "$(dirname "$0")" && pwd)"
repo="${SIM_REPO:-/repo}"
tier="${VERIF_TIER:-quick}"
seed="${VERIF_SEED:-1}"
. "$here/env.sh"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/simcheck.XXXXXX")" || exit 2
trap 'rm -rf "$scratch"' EXIT
if ! bash "$here/build.sh" "$repo" "$scratch" "$prop" >"$scratch/build.log" 2>&1; then
	cat "$scratch/build.log" >&2
	echo "check error: build failed" >&2
	exit 2
fi
case "$tier" in
thorough) secs="${SIM_SECONDS:-540}" ;;
*) secs="${SIM_SECONDS:-40}" ;;
esac
mkdir -p "$here/evidence" "$here/replays" "$scratch/run"
"$scratch/sim-plain" drive -prop "$prop" -tier "$tier" -seed "$seed" -seconds "$secs" \
	-workers "${SIM_WORKERS:-8}" -dir "$scratch/run" -plain "$scratch/sim-plain" -race "$scratch/sim-race" \
	-evidence "$here/evidence/$prop.json" -replays "$here/replays" -sites "$scratch/inst/sites.json" \
	-known "$here/known-findings.txt"
