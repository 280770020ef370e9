#!/bin/bash
# builds the engine and runs the self-test of its expression layer (simplifier, ranges, Z3 translation)
cd "$(dirname "$0")/.." || exit 1
t=$(mktemp -d) || exit 1
g++ -std=c++17 -O2 -w engine/exprtest.cpp -o "$t/exprtest" -lz3 && "$t/exprtest" "${VERIF_SEED:-1}" 10000; rc=$?
rm -rf "$t"
exit $rc
