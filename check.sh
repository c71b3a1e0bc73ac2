#!/bin/bash
# usage: check.sh ID [--replay FILE]
# exit 0: the property held; 1: VIOLATION; 2: the check couldn't decide
cd "$(dirname "$0")" || exit 2
export RV_ROOT=$PWD
ID=$1
LIB="C02 C03 C05 C06 C10 C15 C16"
NET="C01 C02 C03 C04 C07 C08 C09 C10 C11 C12 C13 C14 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29"
has() { [[ " $1 " == *" $2 "* ]]; }
has "$LIB $NET" "$ID" || { echo "unknown property $ID"; exit 2; }
BIN=$(echo "$ID" | tr C c)
lib=0
if has "$LIB" "$ID"; then
  if ./build.sh "lib:$BIN"; then lib=1
  elif has "$NET" "$ID"; then echo "the library part of $ID doesn't build: only the network part runs"
  else exit 2; fi
fi
if has "$NET" "$ID"; then ./build.sh srv net || exit 2; fi
# With a first identifier of our choice; those parts are left out without it.
if has "C10 C11 C19 C23" "$ID" && ./build.sh lib:aged; then
  export RV_AGED=$RV_ROOT/target/lib/debug/aged
fi
export RV_SERVER=$RV_ROOT/target/srv/debug/roster
export RUST_BACKTRACE=0
[ "$2" = --replay ] || rm -f "evidence/$ID.json"
if [ "$VERIF_TIER" = thorough ]; then limit=7200; else limit=700; fi
rc=0
if [ $lib = 1 ]; then
  timeout -k 5 $limit "target/lib/debug/$BIN" "$@"
  rc=$?
  export RV_MERGE=1
fi
if [ $rc = 0 ] && has "$NET" "$ID"; then
  timeout -k 5 $limit target/net/debug/netcheck "$@"
  rc=$?
fi
case $rc in
  0) grep "^KNOWN-FINDING: property=$ID " known-findings.txt 2>/dev/null; exit 0 ;;
  1) exit 1 ;;
  *) echo "the check of $ID ended with $rc"; exit 2 ;;
esac
