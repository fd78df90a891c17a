#!/bin/bash
# check.sh PROPERTY          build the monitor against /repo's working tree and run the property's check
# check.sh build             build only
# check.sh replay FILE       run one recorded case again: prints "held" (exit 0) or "VIOLATED ..." (exit 1)
# VERIF_SEED (default 1) and VERIF_TIER (quick | thorough) choose the run.
# C18 also runs under ThreadSanitizer and C02 under AddressSanitizer (nightly toolchain): a second build each.
set -u
[ "${1:-}" = replay ] && set -- replay "$(realpath "$2")"
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness" || exit 2
export CARGO_NET_OFFLINE=true
# Rebuild whenever the content of the crate differs from what was built last, whatever the file times say.
sum=$( (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs -d '\n' sha256sum) 2>/dev/null | sha256sum)
fresh() { # TARGET_DIR: drop what was built from other content
  if [ "$(cat "$1/repo-content" 2>/dev/null)" != "$sum" ]; then
    find "$1" -maxdepth 4 -path '*/.fingerprint/nodejs-resolver-*' -prune -exec rm -r {} + 2>/dev/null
  fi
}
log=$(mktemp)
trap 'rm -f "$log"' EXIT
target="$here/harness/target"
fresh "$target"
if ! CARGO_TARGET_DIR="$target" cargo build --offline --quiet 2>"$log"; then
  cat "$log" >&2
  echo "error: the monitor does not build against /repo" >&2
  exit 2
fi
echo "$sum" > "$target/repo-content"

sanitizer() { # NAME RUSTFLAGS CARGO_ARGS...
  local name=$1 flags=$2 dir="$here/harness/target-$1"
  shift 2
  fresh "$dir"
  if RUSTFLAGS="$flags" CARGO_TARGET_DIR="$dir" timeout 400 cargo +nightly build --offline --quiet "$@" \
      --target x86_64-unknown-linux-gnu >"$log" 2>&1; then
    echo "$sum" > "$dir/repo-content"
    export MON_SAN="$dir/x86_64-unknown-linux-gnu/debug/mon" MON_SAN_NAME="$name"
  else
    tail -5 "$log" >&2
    echo "note: the $name build failed; going on without it" >&2
    export MON_SAN_MISSING="the $name build failed: $(tail -1 "$log")"
  fi
}
sanitizer_for() {
  case "$1" in
    C18)
      export TSAN_OPTIONS="exitcode=66:halt_on_error=1:history_size=4"
      sanitizer thread "-Zsanitizer=thread" -Zbuild-std ;;
    C02)
      export ASAN_OPTIONS="exitcode=66:detect_leaks=0:detect_stack_use_after_return=0"
      sanitizer address "-Zsanitizer=address --cfg mon_asan" ;;
  esac
}
case "${1:-}" in
  build) exit 0 ;;
  replay)
    mon="$target/debug/mon"
    if grep -q '"message": "the sanitizer' "$2"; then # a data race shows to the sanitizer only
      sanitizer_for "$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$2" | head -1)"
      mon=${MON_SAN:-$mon}
    fi
    rm -f "$log"
    for _ in 1 2 3 4 5; do "$mon" replay "$2" || exit; [ "$mon" = "$target/debug/mon" ] && exit; done
    exit 0 ;;
  C*) sanitizer_for "$1" ;;
  *) echo "usage: check.sh PROPERTY | build | replay FILE" >&2; exit 2 ;;
esac
rm -f "$log"
exec "$target/debug/mon" run "$1"
