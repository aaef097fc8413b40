#!/bin/bash
# Builds both variants of the simulator from /repo's working tree.
cd "$(dirname "$0")" || exit 2
mkdir -p target
export CARGO_NET_OFFLINE=true
F=
cargo build --offline -q 2>target/build.log || {
    cp target/build.log target/first.log
    F="--features noblocks"
    echo "block records can not be read"
    cargo build --offline -q $F 2>target/build.log || { cat target/first.log; exit 2; }
}
cargo build --offline -q --profile fast $F 2>target/build.log || { cat target/build.log; exit 2; }
rm -f "$PWD/target/build.log"
