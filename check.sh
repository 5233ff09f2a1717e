#!/bin/bash
# Decides one property by deterministic simulation: builds /repo's current tree
# with the simulator, then searches seeded runs.
#   check.sh C05 [quick|thorough]     exit 0: held; 1: VIOLATION; 2: the machinery failed
#   check.sh --replay FILE [--verbose]
#   check.sh --setup                  builds only
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
SEED=${VERIF_SEED:-1}
BUILD=${VERIF_BUILD:-$HERE/build}
export ASAN_OPTIONS=detect_leaks=0:symbolize=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=0
build() {
	local kind=$1
	if ! bash "$HERE/sim/build.sh" "$BUILD/$kind" "$kind" >"$BUILD/build-$kind.log" 2>&1; then
		tail -40 "$BUILD/build-$kind.log" >&2
		echo "HARNESS ERROR: the simulator does not build against $REPO" >&2
		exit 2
	fi
}
mkdir -p "$BUILD" "$HERE/evidence" "$BUILD/replays"
if [ "${1:-}" = --setup ]; then
	build asan
	build tsan
	exit 0
fi
kindOf() { if [ "$1" = C09 ]; then echo tsan; else echo asan; fi; }
if [ "${1:-}" = --replay ]; then
	F=$2; shift 2
	P=$(sed -n 's/^property //p' "$F" | head -1)
	K=$(kindOf "$P")
	build $K
	exec "$BUILD/$K/dsim" --replay "$F" "$@"
fi
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
K=$(kindOf "$P")
build $K
if [ "$TIER" = thorough ]; then ARGS="--seconds 600 --max-seconds 660 --min-runs 20000"; else ARGS="--seconds 30 --max-seconds 240 --min-runs 6000"; fi
exec "$BUILD/$K/dsim" --prop "$P" --tier "$TIER" --seed "$SEED" $ARGS --jobs "$(nproc)" \
	--known "$HERE/known_findings.txt" --out "$HERE/evidence/$P.json" --replay-dir "$BUILD/replays"
