#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild from /repo's working tree and search.
# Exit 0: held on everything explored; 1: VIOLATION line printed; other: the check could not run.
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$V VERIF_SEED=${VERIF_SEED:-1} RUST_BACKTRACE=0
tier=${2:-${VERIF_TIER:-quick}}
case $1 in
  C*) parts="os cli sim" ;;
  L07) parts="sim07" ;;
  L*) parts="sim" ;;
  P*) parts="py sim" ;;
  J*|W*) parts="js sim" ;;
  *) echo "usage: check.sh PROPERTY [quick|thorough]" >&2; exit 3 ;;
esac
"$V/build.sh" $parts || { echo "the build failed" >&2; exit 3; }
exec "$V/target/${parts##* }/release/sim" check "$1" "$tier"
