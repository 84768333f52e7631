#!/bin/bash
# development helper: build one variant to IR
cd /verif/harness
F=$1; [ $F = core ] && F=""
RUSTFLAGS="--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp --cfg jpeg_encoder_verif" CARGO_TARGET_DIR=/verif/build/$1 cargo build --offline --lib --features "$F" --message-format=json-render-diagnostics 2>/tmp/mk.err | grep -o '"[^"]*\.rmeta"' | tr -d '"' | sed 's/rmeta$/ll/; s/deps\/lib/deps\//' | sort -u > /verif/build/$1.files
grep -A7 -E '^error' /tmp/mk.err; cat /verif/build/$1.files
