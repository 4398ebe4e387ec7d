#!/bin/bash
# ev.sh EXPR...: evaluate natively against the current overlay build (development aid)
H=$(cd "$(dirname "$0")" && pwd); cd $H/harness && CARGO_TARGET_DIR=$H/build/target RUSTFLAGS="-C embed-bitcode=yes" CARGO_INCREMENTAL=0 RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo rustc -q --offline --release --bin ev -- -C codegen-units=1 -L native=$H/build -l static=symrt 2>/tmp/ev.err || tail -30 /tmp/ev.err
$H/build/target/release/ev "$@" 2>&1
