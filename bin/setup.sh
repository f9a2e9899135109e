#!/bin/bash
# build the harness binaries, offline, from the committed files
. "$(dirname "$(readlink -f "$0")")/env.sh"
for crate in fsv fsv-mpi; do
  ( cd $crate && cargo build --profile bare --offline --locked -q ) & pid=$!
  ( cd $crate && cargo build --offline --locked -q ) || exit 1
  wait $pid || exit 1
done
exit 0
