#!/bin/bash
# Builds main.rs (next to this file) against the crate in the working directory, once per
# configuration in the file "configs", and runs it.  Exit 0: the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
polling = { path = "$repo" }
libc = "0.2"
END
cd "$tmp" || exit 2
for c in $(cat "$here/configs"); do
    case $c in
        epoll) f="" ;;
        poll) f="--cfg polling_test_poll_backend" ;;
        pipe) f="--cfg polling_test_epoll_pipe" ;;
    esac
    RUSTFLAGS="$f" CARGO_TARGET_DIR="$tmp/t" cargo build --offline -q || exit 2
    timeout 60 "$tmp/t/debug/demo" $c || { echo "configuration $c: property broken"; exit 1; }
done
exit 0
