#!/bin/bash
# check.sh ID [quick|thorough]: builds the simulator against /repo's working tree and runs the check of one property
export HOME=/root LANG=C.UTF-8
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/target PYO3_PYTHON=/opt/vp/pyvenv/bin/python3 PYTHONDONTWRITEBYTECODE=1
unset CHANOMARC LD_LIBRARY_PATH RUST_BACKTRACE RUST_LOG LD_PRELOAD RUSTFLAGS
id=$1
tier=${2:-${VERIF_TIER:-quick}}
cd /verif/sim || exit 2
# cargo goes by modification times; go by contents
sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.py' \) -print0 | sort -z | xargs -0 sha256sum | cat - /verif/sim/rustc.sh | sha256sum)
if [ "$sum" != "$(cat /verif/target/.sources 2>/dev/null)" ]; then
    for d in /verif/target /verif/target/plain /verif/target/bins /verif/target/py; do
        [ -d "$d/debug/.fingerprint" ] && find "$d/debug/.fingerprint" -maxdepth 1 -name 'chano*' -print0 | xargs -0 -r rm -rf
    done
    mkdir -p /verif/target && echo "$sum" > /verif/target/.sources
fi
die() { echo "$log" | tail -40; echo "build failed"; exit 2; }
# two simulators: the one for properties with several threads can switch at every memory access of the library
sim() { # access|cover TARGET-DIR
    log=$(CHANO_SAN=$1 RUSTC_WRAPPER=/verif/sim/rustc.sh cargo build --offline --target-dir "$2" 2>&1) || die
}
case $id in
    C01 | C06 | C08 | C10 | C11 | C13 | C14 | C15 | C17 | C21) bin=/verif/target/plain ;;
    *) bin=/verif/target ;;
esac
[ $bin = /verif/target ] && sim access $bin
[ $bin = /verif/target/plain -o "$id" = build ] && sim cover /verif/target/plain
case $id in C13 | C14 | C15 | build)
    log=$(cargo build --offline --bins --manifest-path /repo/Cargo.toml --target-dir /verif/target/bins 2>&1) || die ;;
esac
case $id in C17 | build)
    log=$(cd /repo/bindings/python3 && cargo build --offline --features pyo3/extension-module --target-dir /verif/target/py 2>&1) || die
    mkdir -p /verif/target/pypkg/chanoma
    cp /repo/bindings/python3/chanoma/__init__.py /verif/target/pypkg/chanoma/__init__.py || exit 2
    cmp -s /verif/target/py/debug/libchanoma_py.so /verif/target/pypkg/chanoma/chanoma.so || cp /verif/target/py/debug/libchanoma_py.so /verif/target/pypkg/chanoma/chanoma.so || exit 2 ;;
esac
[ "$id" = build ] && exit 0
cd /verif
exec $bin/debug/dst check "$id" "$tier"
