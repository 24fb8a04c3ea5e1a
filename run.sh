#!/bin/bash
# run.sh check <property> [budget-seconds] | replay <file> | build
set -u
cd "$(dirname "$(readlink -f "$0")")"
export LC_ALL=C.UTF-8
mkdir -p evidence build replays
targets() {
	case "$1" in
		C04) echo voikkospell;;
		C09) echo voikkovfstc;;
		C10) echo voikkospell voikkohyphenate voikkogc;;
		C12) echo java;;
		C14) echo python;;
		C16) echo javascript;;
		C17) echo generator;;
		*) echo lib;;
	esac
}
script() {
	case "$1" in
		java) echo python3 java/check.py;;
		python) echo python3 py/check.py;;
		generator) echo python3 py/gen.py;;
		javascript) echo node js/check.js;;
	esac
}
case "${1:-}" in
build)
	python3 build.py lib voikkospell voikkogc voikkohyphenate voikkovfstc || exit 3
	python3 java/check.py build || exit 3
	python3 py/check.py build || exit 3
	;;
check)
	P=$2
	TIER=${VERIF_TIER:-quick}
	SEED=${VERIF_SEED:-1}
	if [ "$TIER" = thorough ]; then BUDGET=${3:-600}; else BUDGET=${3:-45}; fi
	T=$(targets "$P")
	case "$P" in C05|C06|C08|C09|C10|C11|C17) LEVEL=fault_enumeration;; *) LEVEL=exploration;; esac
	S=$(script "$T")
	if [ -n "$S" ]; then exec $S check --seed "$SEED" --budget "$BUDGET" --tier "$TIER" --evidence "evidence/$P.json"; fi
	python3 build.py $T || exit 3
	if [ "$(echo $T | wc -w)" = 1 ]; then
		exec ./build/sim_$T check "$P" --seed "$SEED" --tier "$TIER" --budget "$BUDGET" --level "$LEVEL" --evidence "evidence/$P.json" --verif "$PWD"
	fi
	exec python3 tools/multi.py "$P" "$SEED" "$TIER" "$BUDGET" "$LEVEL" $T
	;;
replay)
	F=$2
	P=$(sed -n 's/^property //p' "$F" | head -1)
	T=$(sed -n 's/^param tool //p' "$F" | head -1)
	[ -n "$T" ] || T=$(targets "$P" | cut -d' ' -f1)
	S=$(script "$T")
	if [ -n "$S" ]; then exec $S replay "$F"; fi
	python3 build.py $T || exit 3
	exec ./build/sim_$T replay "$F" --verif "$PWD"
	;;
*) echo "usage: run.sh check <property> [seconds] | replay <file> | build"; exit 2;;
esac
