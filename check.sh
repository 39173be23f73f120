#!/bin/bash
# usage: check.sh ID [quick|thorough]
# Builds the simulator from /repo's working tree and searches for violations of the property.
# exit 0: held; 1: VIOLATION line printed; 2: no answer.
cd "$(dirname "$0")" || exit 2
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
case $ID in
	C02|C03|C06|C17) UNI="d s f l cv";;
	C08|C09|C10) UNI="d";;
	*) UNI="d s f l";;
esac
EXE=$(bash ./build.sh $UNI) || { echo "check $ID: build failed" >&2; exit 2; }
if [ "$TIER" = thorough ]; then T=${SIM_TIME:-780}; else T=${SIM_TIME:-28}; fi
exec "$EXE" --dir "$PWD" --tier "$TIER" --seed "${VERIF_SEED:-1}" --time "$T" --workers "$(nproc)" "$ID"
