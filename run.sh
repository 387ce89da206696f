#!/bin/bash
# run.sh <property id>: rebuilds what is needed and decides the property. Tier from VERIF_TIER.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
cd "$V" || exit 2
case "$1" in C29) export HOOKED=1 ;; C30) export HOOKED=1 SEM=1 ;; esac
./build.sh || exit $?
export MC_VERIF="$V" MC_BIN="${MC_REPO:-/repo}/target/debug/backpak" MC_PRELOAD="$V/.build/preload.so" MC_REPO_DIR="${MC_REPO:-/repo}"
[ "$HOOKED" ] && MC_BIN="${MC_REPO:-/repo}/target/verif/debug/backpak"
exec "$V/.build/mc/release/mc" "$@"
