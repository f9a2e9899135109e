# build environment shared by all scripts; sourced
. /opt/vp/env.inc.sh >/dev/null 2>&1
cd "${VERIF_DIR:-/verif}"
export CARGO_TARGET_DIR=${FSV_TARGET:-${VERIF_DIR:-/verif}/target}
export CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0
export LIBCLANG_PATH=${LIBCLANG_PATH:-/usr/lib/llvm-14/lib}
