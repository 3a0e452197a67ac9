#!/bin/bash
# run.sh PROPERTY TIER      search (TIER: quick or thorough), seed from VERIF_SEED
# run.sh replay FILE        execute a replay file again
# run.sh setup              build everything once, to see that it builds
# Everything is built from /repo's current working tree into a scratch
# directory, which is removed at the end.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
repo=/repo
scratch=$(mktemp -d /tmp/vsim.XXXXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
what=${1:?property}
prop=$what
if [ "$what" = replay ]; then
	file=$(readlink -f "${2:?file}") || exit 2
	prop=$(sed -n 's/^ "property": "\(.*\)",$/\1/p' "$file" | head -1)
fi
race=
case $prop in P07) race=-race ;; esac

cd "$here/sim" || exit 2
mkdir -p "$scratch/ov" "$scratch/run"
go build -o "$scratch/instr" ./cmd/instr || exit 2
"$scratch/instr" "$repo" "$scratch/ov" "$here/sim/sysseam" 2>"$scratch/instr.log" || { cat "$scratch/instr.log" >&2; exit 2; }
go build $race -overlay "$scratch/ov/overlay.json" -o "$scratch/dst" ./cmd/dst || exit 2
case $prop in P09|P10|P11|setup)
	for c in tplconv tplgen; do
		go build -overlay "$scratch/ov/overlay_cmd.json" -o "$scratch/$c" github.com/qiniu/text/tpl/cmd/$c || exit 2
	done ;;
esac
export VSIM_SCRATCH=$scratch/run VSIM_BIN=$scratch VSIM_REPO=$repo VERIF_DIR=$here
case $what in
setup) echo built ;;
replay) "$scratch/dst" replay "$file" ;;
*) "$scratch/dst" check "$prop" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}" "$here" ;;
esac
