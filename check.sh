#!/bin/bash
# check.sh ID [quick|thorough]   decide one property against /repo's working tree
# check.sh replay FILE           run the one execution a violation report names
# check.sh setup                 build everything
HERE=$(cd "$(dirname "$0")" && pwd) || exit 2
cd "$HERE" || exit 2
REPO=${MC_REPO:-/repo}
export MC_REPO=$REPO
[ -d /root/.cargo/bin ] && export PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= LANG=C.UTF-8
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p out
exec 9>out/lock; flock 9

sources() { (cd "$REPO" && find Cargo.toml build.rs src -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; cd "$HERE/mc" && find Cargo.toml src -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum; }

# build DIR LOG [cargo arguments]: rebuilds whenever the contents (not the times) of the sources changed
build() {
  local dir=$1 log=$2; shift 2
  local now; now=$(sources)
  if [ -x "$dir/release/mc" ] && [ "$(cat "$dir/stamp" 2>/dev/null)" = "$now" ]; then return 0; fi
  rm -f "$dir/stamp"
  # cargo goes by modification times, which copies and checkouts do not keep
  [ -d "$dir/release" ] && cargo clean --manifest-path mc/Cargo.toml --release --target-dir "$dir" -p mqtt_packet_3_5 -p mc >/dev/null 2>&1
  cargo build --manifest-path mc/Cargo.toml --release --offline --target-dir "$dir" "$@" >"$log" 2>&1 || return 1
  echo "$now" >"$dir/stamp"
}
plain() {
  build mc/target/plain out/build.log --features proplists || build mc/target/plain out/build.log || { tail -40 out/build.log >&2; echo "ERROR: cannot build the harness against $REPO" >&2; exit 2; }
}

case "$1" in
setup)
  plain
  build mc/target/serde out/build-serde.log --features serde || { tail -40 out/build-serde.log >&2; exit 2; }
  ;;
replay)
  id=$(sed -n 's/^property: *//p' "$2" | head -1)
  plain
  bin=mc/target/plain/release/mc
  if [ "$id" = C18 ]; then
    build mc/target/serde out/build-serde.log --features serde || { tail -40 out/build-serde.log; echo "VIOLATION property=C18 replay=$2"; exit 1; }
    $bin digest >out/plain.digest || exit 2
    export MC_PLAIN_DIGEST=$HERE/out/plain.digest
    bin=mc/target/serde/release/mc
  fi
  exec $bin replay "$2"
  ;;
C18)
  plain
  if ! build mc/target/serde out/build-serde.log --features serde; then
    # with the feature off everything builds: the feature itself does not
    grep -E '^error' -A12 out/build-serde.log | head -40
    { echo "property: C18"; echo "the crate does not build with serde_support, or a packet type is not (de)serializable:"; cat out/build-serde.log; } >out/C18-build.replay
    echo "VIOLATION property=C18 replay=$HERE/out/C18-build.replay"
    exit 1
  fi
  if ! mc/target/plain/release/mc digest >out/plain.digest; then echo "ERROR: no digest" >&2; exit 2; fi
  export MC_PLAIN_DIGEST=$HERE/out/plain.digest
  exec mc/target/serde/release/mc check C18 "${2:-quick}"
  ;;
C[0-9][0-9])
  plain
  exec mc/target/plain/release/mc check "$1" "${2:-quick}"
  ;;
*)
  sed -n 2,4p "$0"; exit 2
  ;;
esac
