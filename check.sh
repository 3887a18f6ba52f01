#!/bin/bash
# check.sh <property>: rebuild from /repo's working tree and decide one property.
cd "$(dirname "$0")" || exit 3
. ./env.sh
id=$1
case $id in
  C20) need="units" bin="units/debug/vhu" ;;
  C21) need="log" bin="log/debug/vhl" ;;
  C02|C11|C14|C15|C16|C17|C19|C22|C23|C24) need="lib cli" bin="debug/vh" ;;
  *) need="lib" bin="debug/vh" ;;
esac
for n in $need; do vh_build $n || exit 3; done
limit=840; [ "$VERIF_TIER" = thorough ] && limit=7200
timeout -k 5 $limit "$VH_TARGET/$bin" "$id"
rc=$?
case $rc in
  0|1) exit $rc ;;
  *) echo "check $id gave no answer (exit $rc)" >&2; exit 3 ;;
esac
