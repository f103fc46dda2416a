#!/bin/bash
# Builds the simulator against /repo's current working tree, into /verif/.build.
# Exit 0 when /verif/.build/release/sim is up to date, 2 otherwise.
root=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$root/.build
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
exec 9> "$CARGO_TARGET_DIR/.lock"
flock 9
# Cargo decides by mtime alone; forget its fingerprints when content changed.
now=$( (cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum
        cd "$root/sim" && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$now" != "$(cat "$CARGO_TARGET_DIR/.sources" 2>/dev/null)" ]; then
    for d in "$CARGO_TARGET_DIR"/release/.fingerprint/parse-proof-of-concept-* "$CARGO_TARGET_DIR"/release/.fingerprint/sim-*; do
        if [ -d "$d" ]; then rm -rf "$d"; fi
    done
    rm -f "$CARGO_TARGET_DIR/.sources"
fi
log=$CARGO_TARGET_DIR/build.log
if ! (cd "$root/sim" && cargo build --offline --release) > "$log" 2>&1; then
    cat "$log" >&2
    echo "the simulator does not build against /repo" >&2
    exit 2
fi
echo "$now" > "$CARGO_TARGET_DIR/.sources"
