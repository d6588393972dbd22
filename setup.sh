#!/bin/bash
# offline smoke test of the toolchain; the checks themselves compile from /repo's working tree on every run
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
g++ -std=c++17 -fsanitize=address -x c++ - -o build/smoke <<'C'
#include <cstdio>
int main() { puts("ok"); }
C
build/smoke
rm -f "$PWD/build/smoke"
