#!/bin/bash
# check.sh ID [quick|thorough]: builds the simulator against /repo's working tree and runs one check.
# check.sh build: only builds. check.sh replay FILE: replays a violation.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here
export CARGO_NET_OFFLINE=true
repo=/repo
sim=$here/sim
mkdir -p "$sim/target" || exit 2

# builds the profile in $1: "release", or "stack" (not optimized: recursion is recursion) for C14
build() {
    local profile=$1 flags=
    [ "$profile" = stack ] && flags="--features stack"
    exec 9>"$sim/target/.build-lock"
    flock 9
    # File times cannot be trusted after copies and checkouts: the contents decide
    local now stamp
    now=$(cd "$repo" && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum)
    stamp=$sim/target/.repo-hash-$profile
    if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$now" ]; then
        rm -f "$stamp"
        (cd "$sim" && cargo clean --profile "$profile" --offline -p sgmlish >/dev/null 2>&1)
    fi
    local log
    if ! log=$(cd "$sim" && cargo build --profile "$profile" $flags --offline --locked 2>&1); then
        echo "$log" | tail -40 >&2
        echo "build failed" >&2
        exit 2
    fi
    echo "$now" > "$stamp"
    exec 9>&-
}

profile_of() {
    case "$1" in C14) echo stack ;; *) echo release ;; esac
}

case "${1:-}" in
    build) build release; build stack ;;
    replay)
        profile=$(profile_of "$(sed -n 's/^property //p' "$2" | head -1)")
        build "$profile"
        exec "$sim/target/$profile/sgmlsim" replay "$2" ;;
    determinism)
        profile=$(profile_of "$2")
        build "$profile"
        exec "$sim/target/$profile/sgmlsim" determinism "$2" ;;
    C*)
        profile=$(profile_of "$1")
        build "$profile"
        export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
        exec "$sim/target/$profile/sgmlsim" check "$1" ;;
    *) echo "usage: check.sh ID [quick|thorough] | build | replay FILE | determinism ID" >&2; exit 2 ;;
esac
