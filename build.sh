#!/usr/bin/env bash
# Builds harness/ (and through it the crate in /repo) into target/. Cargo decides staleness by
# modification time, so the fingerprints of both crates are dropped first.
V="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$V/target" "$V/out" "$V/evidence" || exit 2
exec 9>"$V/target/.build.lock"
flock 9 || exit 2
if [ -d "$V/target/release/.fingerprint" ]; then
  for d in "$V"/target/release/.fingerprint/tsmc-* "$V"/target/release/.fingerprint/traffic-sim-*; do
    if [ -d "$d" ]; then rm -rf "$d"; fi
  done
fi
export CARGO_TARGET_DIR="$V/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
if ! cargo build --release --offline --manifest-path "$V/harness/Cargo.toml" >"$V/out/build.log" 2>&1; then
  tail -40 "$V/out/build.log" >&2
  echo "build failed" >&2
  exit 2
fi
