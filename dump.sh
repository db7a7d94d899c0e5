#!/bin/bash
# usage: dump.sh CRATE_DIR CRATE_NAME OUT.json
set -e
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=nightly CARGO_INCREMENTAL=0
export LD_LIBRARY_PATH=$(rustc --print sysroot)/lib:$LD_LIBRARY_PATH
export RUSTC_WRAPPER=/verif/build/mirdump/debug/mirdump
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings"
export CARGO_TARGET_DIR=/verif/build/check
export MIRDUMP_CRATE=$2 MIRDUMP_OUT=$3
export MIRDUMP_STOP="core::fmt;std::fmt;alloc::fmt;core::panicking;std::panicking;alloc::raw_vec;std::collections;hashbrown;cranelift;egglog;core::str;core::num::flt2dec;core::num::dec2flt;std::io;std::sys;std::thread;std::alloc;alloc::alloc"
cd $1
rm -f "$3"
touch src/lib.rs
cargo check --offline --lib
