#!/bin/bash
# check.sh ID            run the check of property ID (VERIF_SEED, VERIF_TIER)
# check.sh --replay FILE re-run one recorded failing execution
# exit 0 held, 1 VIOLATION line printed, 2 the check itself failed
cd "$(dirname "$0")" || exit 2
log=$(mktemp) || exit 2
if ! sim/build.sh >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"
    echo "check.sh: the simulator does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
bin="${SIM_TARGET:-$PWD/sim/target}/release/sim"
if [ "$1" = --replay ]; then exec "$bin" replay "$2"; fi
exec "$bin" check "$1" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" --replays "$PWD/replays" "${@:2}"
