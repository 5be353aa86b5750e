#!/bin/bash
# build.sh <binary>: builds one simulator binary from /repo's working tree into /verif/build/<binary>
# binaries: store (key-value stores, logger) | core (CPU library) | dist (library with simulated CUDA and NCCL)
set -e
cd "$(dirname "$0")"
exec make -s -j8 -f sim.mk "$1"
