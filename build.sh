#!/bin/bash
# Builds target/debug/hir-dst from /repo's working tree (offline).
cd "$(dirname "$0")" || exit 2
here=$PWD
repo=$(realpath ../repo)
export RUSTUP_TOOLCHAIN=1.74.1 CARGO_TARGET_DIR="$here/target" CARGO_TERM_COLOR=never
if grep -Eq '^[^/]*#\[(::)?tokio::main|^[^/]*use tokio::.*main' "$repo/src/main.rs"; then
    cd sim || exit 2
else
    # A main which builds its runtime itself: the simulator calls it under another name
    gen=$here/target/gen
    rm -rf "$here/target/gen"
    mkdir -p "$gen/sim" || exit 2
    cp sim/Cargo.toml sim/Cargo.lock "$gen/sim/" && cp -a "$repo/src" "$gen/src" || exit 2
    sed -Ei 's/^(pub )?fn main\(/fn __dst_sync_main(/' "$gen/src/main.rs"
    printf '\nfn main() {\n    ::dst_harness::entry_sync(|| { let _ = __dst_sync_main(); })\n}\n' >> "$gen/src/main.rs"
    sed -Ei "s#path = \"../../repo/src/main.rs\"#path = \"$gen/src/main.rs\"#; s#path = \"../../repo\"#path = \"$repo\"#; s#path = \"(harness|tokio-shim|env_logger-shim)\"#path = \"$here/sim/\1\"#" "$gen/sim/Cargo.toml"
    cd "$gen/sim" || exit 2
fi
cargo build --offline -q && exit 0
# Left-overs of an interrupted build can make it fail
echo "build.sh: again, from scratch" >&2
cargo clean --offline -q -p hyper-ir-lsp -p hir-dst -p dst-harness
CARGO_INCREMENTAL=0 exec cargo build --offline -q
