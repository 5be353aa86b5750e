#!/bin/bash
# run.sh <property id>: rebuilds the simulator binary of the property from /repo's working tree and runs its check
# VERIF_SEED, VERIF_TIER (quick|thorough) from the environment
cd "$(dirname "$0")" || exit 2
id=$1; shift
mkdir -p build
case $id in
  C0[1-7]|C23) bin=store;;
  C08|C09|C10|C11|C13|C24) bin=dist;;
  *) bin=core;;
esac
if ! ./build.sh $bin > build/$bin.log 2>&1; then tail -n 40 build/$bin.log; echo "ERROR: build failed"; exit 2; fi
exec build/$bin.bin check "$id" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" "$@"
