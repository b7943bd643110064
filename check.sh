#!/bin/bash
# check.sh setup | check.sh ID | check.sh replay ID TIER SEED CASE
# Builds the monitor against /repo's current working tree and runs one check.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUST_BACKTRACE
export MON_ROOT=$PWD

build() {
    mkdir -p harness/target
    exec 9>harness/target/.check.lock
    flock 9
    # cargo trusts modification times; the sources may have been laid here with any
    local sum old
    sum=$(cd /repo && { cat Cargo.toml; find src -type f | LC_ALL=C sort | xargs -d '\n' sha256sum; } | sha256sum)
    old=$(cat harness/target/.repo.sum 2>/dev/null)
    if [ "$sum" != "$old" ]; then
        find "$PWD/harness/target/debug/.fingerprint" -maxdepth 1 -name 'geom3d-*' -exec rm -r {} + 2>/dev/null
    fi
    if ! (cd harness && cargo build --offline --locked) >harness/target/build.log 2>&1; then
        tail -n 40 harness/target/build.log >&2
        echo "check.sh: the build failed" >&2
        exit 2
    fi
    echo "$sum" >harness/target/.repo.sum
    flock -u 9
    exec 9>&-
}

case "$1" in
setup) build ;;
replay)
    build
    shift
    exec harness/target/debug/monitor replay "$@"
    ;;
[A-Z][0-9]*)
    build
    exec harness/target/debug/monitor check "$1"
    ;;
*)
    echo "usage: check.sh setup | ID | replay ID TIER SEED CASE" >&2
    exit 2
    ;;
esac
