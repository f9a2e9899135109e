#!/bin/bash
# run every serial check (arg 1: tier), print summary lines and violations
. "$(dirname "$0")/env.sh"
cd fsv && cargo build --offline -q || exit 2
for id in $(${CARGO_TARGET_DIR}/debug/fsv list); do
  [ -n "$2" ] && [[ ! " $2 " =~ " $id " ]] && continue
  ${CARGO_TARGET_DIR}/debug/fsv check $id ${1:-quick}; echo "rc=$?"
done
