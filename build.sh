#!/bin/bash
# Builds (1) the program under test from /repo's working tree, exactly as /opt/vp/build.sh does,
# and (2) the model-checking harness; with HOOKED=1 also (3) the program with its hooks on. Prints nothing on success. Exit 3: the program does not build.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${MC_REPO:-/repo}
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p "$V/.build"
(
  flock 9
  # --- harness
  unset RUSTFLAGS
  CARGO_TARGET_DIR="$V/.build/mc" cargo build --release --offline --quiet --manifest-path "$V/mc/Cargo.toml" >"$V/.build/mc.log" 2>&1 \
    || { cat "$V/.build/mc.log" >&2; exit 4; }
  if [ ! -e "$V/.build/preload.so" ] || [ "$V/mc/preload.c" -nt "$V/.build/preload.so" ]; then
    gcc -O1 -shared -fPIC -o "$V/.build/preload.so.tmp" "$V/mc/preload.c" -ldl && mv "$V/.build/preload.so.tmp" "$V/.build/preload.so" || exit 4
  fi
  # --- program under test: rebuilt whenever the content of its sources differs from the last build
  cd "$REPO" || exit 3
  export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
  unset CARGO_TARGET_DIR
  sum=$( { find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha1sum; } | sha1sum | cut -d' ' -f1)
  bin="$REPO/target/debug/backpak"
  stamp="$REPO/target/mc-stamp"
  have=$(cat "$stamp" 2>/dev/null)
  if [ ! -x "$bin" ] || [ "$have" != "$sum $(sha1sum <"$bin" | cut -d' ' -f1)" ]; then
    # cargo judges freshness by mtime, which a patched-in file need not advance
    find src b2/src -name '*.rs' -exec touch {} +
    cargo build --offline --quiet --bin backpak >"$V/.build/repo.log" 2>&1 || { cat "$V/.build/repo.log" >&2; exit 3; }
    echo "$sum $(sha1sum <"$bin" | cut -d' ' -f1)" >"$stamp"
  fi
  # --- the same with the hooks on (cfg backpak_verif), for the checks that need them
  hbin="$REPO/target/verif/debug/backpak"
  hstamp="$REPO/target/verif/mc-stamp"
  if [ "$HOOKED" ] && { [ ! -x "$hbin" ] || [ "$(cat "$hstamp" 2>/dev/null)" != "$sum $(sha1sum <"$hbin" | cut -d' ' -f1)" ]; }; then
    find src b2/src -name '*.rs' -exec touch {} +
    RUSTFLAGS="--cfg backpak_verif" CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR="$REPO/target/verif" \
      cargo build --offline --quiet --bin backpak >"$V/.build/hooked.log" 2>&1 || { cat "$V/.build/hooked.log" >&2; exit 3; }
    echo "$sum $(sha1sum <"$hbin" | cut -d' ' -f1)" >"$hstamp"
  fi
  # --- the semaphore with loom's atomics; if it cannot be compiled so, there is no binary
  if [ "$SEM" ]; then
    S="$V/.build/sem"
    mkdir -p "$S/crate/src"
    cp -p "$V/sem/Cargo.toml" "$S/crate/"; cp -p "$V/sem/Cargo.lock" "$S/crate/" 2>/dev/null
    for f in main shim; do cmp -s "$V/sem/src/$f.rs" "$S/crate/src/$f.rs" || cp "$V/sem/src/$f.rs" "$S/crate/src/"; done
    sed -E 's/(^|[^:A-Za-z0-9_])(::)?(std|core)::/\1crate::shim::std::/g; s/(^|[^:A-Za-z0-9_])(::)?atomic_wait::/\1crate::shim::wait::/g' "$REPO/src/semaphored.rs" >"$S/semaphored.rs" 2>/dev/null
    cmp -s "$S/semaphored.rs" "$S/crate/src/semaphored.rs" || cp "$S/semaphored.rs" "$S/crate/src/"
    if RUSTFLAGS="--cfg loom" CARGO_TARGET_DIR="$S/target" cargo build --release --offline --quiet --manifest-path "$S/crate/Cargo.toml" >"$V/.build/sem.log" 2>&1; then
      cp "$S/target/release/sem" "$S/bin"
    else
      rm -f "$S/bin"
    fi
  fi
) 9>"$V/.build/lock"
