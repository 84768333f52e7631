#!/bin/bash
# development helper: run the checks given (default: all) one after another
cd "$(dirname "$0")/.."
[ $# = 0 ] && set -- C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20
for p; do VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 check.py $p 2>&1 | cut -c1-420; echo "$p rc=${PIPESTATUS[0]}"; done
