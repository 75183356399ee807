#!/bin/bash
# check.sh <property> [explorer arguments]: rebuilds the explorer of the property against /repo's working tree and runs it.
# exit 0: held; 1: violated (VIOLATION line printed); 2: the check itself failed
set -u
cd "$(dirname "$0")" || exit 2
VERIF_DIR=$(pwd); export VERIF_DIR
. ./env.sh
id=${1:?usage: check.sh <property>}
shift
case $id in
  C01|C02|C03|C04) bin=kd ;;
  C05|C06|C07|C08) bin=clouds ;;
  C09|C10|C11|C12|C13|C14|C15) bin=icp ;;
  C16|C17|C18|C19) bin=hull ;;
  C20|C21|C22|C23) bin=pip ;;
  C24|C25) bin=geo ;;
  C26|C27) bin=lines ;;
  C28) bin=pregen ;;
  C29) exec python3 tools/features.py "$@" ;;
  C30) bin=reentry ;;
  C31|C32) bin=special ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
export CARGO_TARGET_DIR=$VERIF_DIR/.build/mc
sync_sources mc
if ! cargo build --offline --quiet --manifest-path mc/Cargo.toml --bin $bin > .build/build-$bin.log 2>&1; then
  tail -40 .build/build-$bin.log >&2
  echo "check.sh: the explorer did not build" >&2
  exit 2
fi
# 24 GB of address space at most: a runaway input must not take the machine down
ulimit -v 25165824
"$CARGO_TARGET_DIR/debug/$bin" "$id" "$@"
rc=$?
[ $rc -le 1 ] || { echo "check.sh: the explorer ended with status $rc" >&2; exit 2; }
exit $rc
