#!/bin/bash
# Builds what a check needs from /repo's current working tree.
# usage: build.sh srv|net|lib|lib:BIN ...    exit 2 if something doesn't build
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
. "$ROOT/env.sh"
mkdir -p "$ROOT/target"
exec 9>"$ROOT/target/.lock"
flock 9

# cargo trusts modification times; sources may be put back with older ones.
fresh() { # dir package
  local dir=$1; local stamp="$ROOT/target/$1.stamp" now
  now=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \
    \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name 'build.rs' \) -print0 |
    sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    rm -f "$stamp"
    (cd "$3" && cargo clean --offline --target-dir "$ROOT/target/$1" -p roster >/dev/null 2>&1)
    NEWSTAMP="$now"
  else
    NEWSTAMP=""
  fi
}
stamp() { [ -n "$NEWSTAMP" ] && echo "$NEWSTAMP" >"$ROOT/target/$1.stamp"; return 0; }
run() { # what command...
  local what=$1
  shift
  "$@" >"$ROOT/target/$what.log" 2>&1 || {
    echo "build of $what failed:"
    grep -E '^(error|warning: unused)' -A6 "$ROOT/target/$what.log" | head -40
    tail -5 "$ROOT/target/$what.log"
    exit 2
  }
}
for what in "$@"; do
  case $what in
    srv)
      fresh srv roster /repo
      run srv cargo build --offline --manifest-path /repo/Cargo.toml -p roster --bin roster \
        --target-dir "$ROOT/target/srv"
      stamp srv
      ;;
    net)
      # Without them (no C compiler) the clock of a server can't be moved, its
      # allocations aren't counted, and it isn't confined to some processors.
      mkdir -p "$ROOT/target/net"
      for lib in clock heap cpuset; do
        cc -O1 -shared -fPIC -o "$ROOT/target/net/$lib.so.new" "$ROOT/netcheck/$lib.c" \
          >"$ROOT/target/$lib.log" 2>&1 &&
          mv "$ROOT/target/net/$lib.so.new" "$ROOT/target/net/$lib.so"
      done
      run net cargo build --offline --locked --manifest-path "$ROOT/netcheck/Cargo.toml" \
        --target-dir "$ROOT/target/net"
      ;;
    lib | lib:*)
      bin=""
      [ "$what" = lib ] || bin="--bin ${what#lib:}"
      fresh lib roster "$ROOT/libcheck"
      RUSTFLAGS="--cfg roster_verif" run lib cargo build --offline --locked $bin \
        --manifest-path "$ROOT/libcheck/Cargo.toml" --target-dir "$ROOT/target/lib"
      stamp lib
      ;;
  esac
done
