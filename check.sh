#!/bin/bash
# check.sh setup | check.sh Pxx quick|thorough | check.sh replay FILE
# Builds what the check needs against /repo's working tree (private cargo target directories) and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here
. /opt/vp/env.sh >/dev/null 2>&1
cd "$here" || exit 2
T=$here/target
export RUST_BACKTRACE=0
export DIVANS_BIN=$T/cli/release/divans
mkdir -p "$T" "$here/evidence"

# what every build depends on, by content: file times in a copied tree say nothing
source_sum() { (cd /repo && find src Cargo.toml build.rs c -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum 2>/dev/null | sha256sum); }

# cargo_build DIR TARGET "CLEAN PACKAGES" FLAGS ARGS...: one cargo build, cleaned first when /repo's content changed
cargo_build() {
  local dir=$1 target=$2 pkgs=$3 flags=$4 now
  shift 4
  mkdir -p "$target"
  now=$(source_sum)
  export CARGO_TARGET_DIR=$target RUSTFLAGS="$flags -Awarnings"
  if [ "$(cat "$target/.verif-stamp" 2>/dev/null)" != "$now" ]; then
    rm -f "$target/.verif-stamp"
    local p
    for p in $pkgs; do (cd "$dir" && cargo clean --offline --release -p "$p" >/dev/null 2>&1); done
    echo "$now" >"$target/.verif-stamp"
  fi
  (cd "$dir" && cargo build --offline --release "$@") >"$target/build.log" 2>&1
}

fail() {
  tail -40 "$1/build.log" >&2
  echo "machinery: the harness does not build against /repo" >&2
  exit 2
}

# each of these sets exe
build_dvh() {
  cargo_build "$here/harness" "$T" "divans dvh" "" --bin dvh || fail "$T"
  exe=$T/release/dvh
}
# P11, P16, P17 reach inner functions through the hook; without it, the same properties through the public interface
build_hook() {
  if cargo_build "$here/harness" "$T/hook" "divans dvh" "--cfg divans_verif" --bin "$1"; then
    exe=$T/hook/release/$1
  else
    tail -5 "$T/hook/build.log" >&2
    echo "note: the inner functions are not reachable in this source; public interface only" >&2
    build_dvh
  fi
}
# the modelled-schedule build: a copy of the crate with shuttle's primitives; when the copy does not build
# (the source uses something shuttle does not model), P07 runs with real threads only
build_shuttle() {
  local now
  now=$(source_sum)
  if [ "$(cat "$T/.shuttle-stamp" 2>/dev/null)" != "$now" ]; then
    rm -f "$T/.shuttle-stamp"
    bash "$here/shuttle/mkcopy.sh" "$T/shuttle-src" >/dev/null 2>&1 && echo "$now" >"$T/.shuttle-stamp"
  fi
  if cargo_build "$here/shuttle" "$T/shuttle" "divans divans_shuttle dvh dvhs" ""; then
    exe=$T/shuttle/release/dvhs
  else
    tail -5 "$T/shuttle/build.log" >&2
    echo "note: the schedule model does not build against this source; real threads only" >&2
    build_dvh
  fi
}
# the build variants of P19, all in one program
build_variants() {
  local now v
  now=$(source_sum)
  if [ "$(cat "$T/.variant-stamp" 2>/dev/null)" != "$now" ]; then
    rm -f "$T/.variant-stamp"
    bash "$here/variants/mkcopies.sh" "$T/variant-src" >/dev/null 2>&1 && echo "$now" >"$T/.variant-stamp"
  fi
  if cargo_build "$here/variants" "$T/variants" "divans divans_avoid divans_uncached divans_noinline divans_safe divans_all divans_report divans_blend divans_blendall dvh dvhv" ""; then
    exe=$T/variants/release/dvhv
    return
  fi
  cp "$T/variants/build.log" "$T/variants/build-all.log"
  # a variant that does not compile while the default does is a violation of its own
  if cargo_build /repo "$T/cli" "divans" "" --bin divans; then
    for v in avoid-divide uncached_frequentist no-inline safe billing debug_entropy blend; do
      if ! (cd /repo && CARGO_TARGET_DIR=$T/cli RUSTFLAGS=-Awarnings cargo check --offline --release --lib --features "$v") >"$T/cli/variant.log" 2>&1; then
        mkdir -p "$here/evidence"
        { echo "# cargo check --release --lib --features $v"; tail -60 "$T/cli/variant.log"; } >"$here/evidence/P19-build-$v.log"
        echo "  the build variant $v does not compile"
        echo "VIOLATION property=P19 replay=$here/evidence/P19-build-$v.log"
        exit 1
      fi
    done
  fi
  cp "$T/variants/build-all.log" "$T/variants/build.log"
  fail "$T/variants"
}
# P22: the current tree and the frozen copy in one program
build_frozen() {
  cargo_build "$here/frozen" "$T/frozen" "divans dvh dvhf" "" || fail "$T/frozen"
  exe=$T/frozen/release/dvhf
}
build_cli() {
  cargo_build /repo "$T/cli" "divans" "" --bin divans || fail "$T/cli"
  build_dvh
}

build_for() {
  exec 9>"$T/.verif-lock"
  flock 9
  case "$1" in
    P07) build_shuttle ;;
    P11) build_hook p11 ;;
    P16) build_hook p16 ;;
    P17) build_hook p17 ;;
    P14) build_cli ;;
    P19) build_variants ;;
    P22) build_frozen ;;
    *) build_dvh ;;
  esac
  flock -u 9
  exec 9>&-
  unset CARGO_TARGET_DIR RUSTFLAGS
}

case "${1:-}" in
  setup)
    for p in P01 P07 P11 P16 P17 P14 P19 P22; do (build_for $p); done
    exit 0 ;;
  replay)
    case "$2" in
      *-build-*.log) id=P19 ;;
      *) id=$(sed -n 's/^.*"property": "\(P[0-9][0-9]\)".*$/\1/p' "$2" | head -1) ;;
    esac
    build_for "$id"
    exec "$exe" replay "$2" ;;
  P[0-9][0-9])
    build_for "$1"
    exec "$exe" check "$1" --tier "${2:-quick}" ;;
  *) echo "usage: check.sh setup | Pxx quick|thorough | replay FILE" >&2; exit 2 ;;
esac
