#!/bin/bash
# check.sh ID [quick|thorough]: rebuild the harness against /repo's working
# tree and run one check. Exit 0 held, 1 violated, anything else = error.
. "$(dirname "$(readlink -f "$0")")/env.sh"
id=$1; tier=${2:-${VERIF_TIER:-quick}}
case $id in
  C2[0-9]) crate=fsv-mpi ;;
  *) crate=fsv ;;
esac
log=$(mktemp -d) || exit 2
bare=
# these also run without assertions, as in a release build
case $id in
  C11|C17|C18|C21|C22) bare=1
    ( cd $crate && timeout 700 cargo build --profile bare --offline --locked -q ) >"$log/bare" 2>&1 & pid=$! ;;
esac
fine=1
( cd $crate && timeout 700 cargo build --offline --locked -q ) >"$log/dev" 2>&1 || fine=0
[ -n "$bare" ] && { wait $pid || fine=0; }
if [ $fine = 0 ]; then
  tail -n 40 "$log"/*; rm -rf "$log"; echo "BUILD-FAILED $crate"; exit 2
fi
rm -rf "$log"
[ -n "$bare" ] && export FSV_BARE=$CARGO_TARGET_DIR/bare/$crate
limit=840; [ "$tier" = thorough ] && limit=14400
timeout -k 5 $limit "$CARGO_TARGET_DIR/debug/$crate" check "$id" "$tier"
rc=$?
case $rc in 0|1) exit $rc ;; *) echo "check $id ended with $rc"; exit 2 ;; esac
