#!/bin/bash
# builds all simulator binaries (checks rebuild what they need themselves)
cd "$(dirname "$0")" || exit 2
for b in $(sed -n 's/^BINS := //p' sim.mk); do ./build.sh $b || exit 1; done
