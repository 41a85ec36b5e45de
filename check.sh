#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds the checker against /repo's working tree and decides one property.
# check.sh --build: only builds.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export HOME=${HOME:-/root} LANG=C.UTF-8
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup}
export RUSTUP_TOOLCHAIN=1.77.2-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=--cap-lints=warn
unset RUSTDOCFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
target=$here/target

build() {
    mkdir -p "$target" || return 1
    # Files may carry any date: what was built before only counts if it was built from these very contents.
    local sum
    sum=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum
            cd "$here/harness" && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
    if [ "$(cat "$target/built-from" 2>/dev/null)" = "$sum" ] && [ -x "$target/release/vmc" ]; then
        return 0
    fi
    rm -f "$target/built-from"
    (cd harness && cargo clean --release --offline --target-dir "$target" -p conch-parser -p vmc) >"$target/build.log" 2>&1
    (cd harness && cargo build --release --offline --locked --target-dir "$target") >>"$target/build.log" 2>&1 || {
        tail -40 "$target/build.log" >&2
        return 1
    }
    echo "$sum" >"$target/built-from"
}

(
    flock 9
    build
) 9>"$here/.build-lock" || { echo "the checker could not be built" >&2; exit 2; }
[ "$1" = --build ] && exit 0
exec "$target/release/vmc" check "$1" --tier "${2:-quick}"
