#!/bin/bash
# Build the fact extractor and extract facts from /repo's working tree.
# usage: build.sh WORKDIR OUTDIR
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
work=$1
out=$2
mkdir -p "$work"
sys=$(rustc +nightly --print sysroot)
drv=$work/extract
if [ ! -x "$drv" ] || [ "$here/driver/main.rs" -nt "$drv" ]; then
    (cd "$here/driver" && rustc +nightly -O main.rs --edition 2021 -o "$drv.tmp" 1>&2 && mv "$drv.tmp" "$drv")
fi
if [ ! -f "$repo/Cargo.lock" ] && [ -f /opt/vp/Cargo.lock ]; then
    cp /opt/vp/Cargo.lock "$repo/Cargo.lock"
fi
target=$work/target
if [ -d "$target" ]; then
    find "$target" -maxdepth 4 -name 'frozen*' -prune -exec rm -rf {} +
fi
mkdir -p "$out"
cd "$repo"
VERIF_FACTS_DIR=$out LD_LIBRARY_PATH=$sys/lib RUSTC_WORKSPACE_WRAPPER=$drv CARGO_INCREMENTAL=0 \
    CARGO_TARGET_DIR=$target cargo +nightly check --workspace --lib --offline -q 1>&2
mkdir -p "$out/lib"
find "$target" -path '*frozen*' \( -name 'libfrozen*.rmeta' -o -name 'libfrozen*.rlib' -o -name 'libfrozen*.so' \) -exec cp {} "$out/lib/" \;
