#!/bin/bash
# run.sh build            build the checker against /repo's working tree
# run.sh <PROPERTY> ...   build if anything changed, then run the check
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here" CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
mkdir -p "$CARGO_TARGET_DIR"
stamp="$CARGO_TARGET_DIR/.built-from"
# The build is keyed on file contents, never on time stamps.
key=$(cd / && find /repo/src /repo/Cargo.toml "$here/harness/src" "$here/harness/Cargo.toml" "$here/harness/Cargo.lock" -type f -print0 \
    | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
(
    flock 9
    if [ "$(cat "$stamp" 2>/dev/null)" != "$key" ] || [ ! -x "$CARGO_TARGET_DIR/release/rgcheck" ]; then
        : >"$stamp"
        cd "$here/harness" || exit 2
        cargo clean --release --offline -p rusty-git -p rgcheck >/dev/null 2>&1
        if ! cargo build --release --offline >"$CARGO_TARGET_DIR/build.log" 2>&1; then
            tail -40 "$CARGO_TARGET_DIR/build.log" >&2
            echo "build failed" >&2
            exit 2
        fi
        echo "$key" >"$stamp"
    fi
) 9>"$CARGO_TARGET_DIR/.lock" || exit 2
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/rgcheck" "$@"
