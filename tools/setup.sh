#!/bin/bash
# builds the symbolic executor and, to save time later, the IR and the native harness of the current tree
cd "$(dirname "$0")/.." || exit 1
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
(cd engine && env -u RUSTFLAGS -u CARGO_TARGET_DIR cargo build --release --offline) || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, '.')
import check
for v in ('simd', 'core'):
    try:
        check.build_ir(v)
    except Exception as e:
        print('IR of', v, 'not built yet:', str(e)[-300:])
check.native('simd', 'dev')
P
exit 0
