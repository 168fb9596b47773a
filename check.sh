#!/bin/bash
# check.sh <property id> [--tier quick|thorough] [--replay FILE]     (check.sh --build: only build)
# Rebuilds the harness against /repo's working tree, then model-checks one property.
# exit 0: held; 1: VIOLATION line printed; anything else: error of the check, no verdict.
export HOME=/root PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS=--cap-lints=allow
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$ROOT CARGO_TARGET_DIR=$ROOT/harness/target
build() (
    cd "$ROOT/harness" && mkdir -p "$CARGO_TARGET_DIR" && exec 9>"$ROOT/harness/.lock" && flock 9 || exit 4
    # cargo decides by mtime; decide by content instead, so that a tree restored with old times is never mistaken for the built one
    h=$(cd /repo && find Cargo.toml src utility -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    h="$h $(cd "$ROOT/harness" && find src vendor stubs Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
    if [ "$(cat "$CARGO_TARGET_DIR/.tree" 2>/dev/null)" != "$h" ]; then
        rm -f "$CARGO_TARGET_DIR/.tree"
        [ -d "$CARGO_TARGET_DIR/release" ] && cargo clean -q --offline --locked --release -p bae_rs -p bae-mc 9>&-
        cargo build --release --offline --locked -q 9>&- || exit 4
        # the stand-alone bin2str program, built from a scratch copy so that nothing is written in /repo
        b=$(mktemp -d) && cp -r /repo/utility/bin2str/Cargo.toml /repo/utility/bin2str/src "$b/" && rm -f "$CARGO_TARGET_DIR/b2s/debug/bin2str" &&
            cargo build --offline -q --manifest-path "$b/Cargo.toml" --target-dir "$CARGO_TARGET_DIR/b2s" 9>&-
        rm -rf -- "$b"
        echo "$h" > "$CARGO_TARGET_DIR/.tree"
    fi
)
build || { echo "check.sh: harness build failed" >&2; exit 4; }
[ "$1" = --build ] && exit 0
exec "$CARGO_TARGET_DIR/release/bae-mc" "$@"
