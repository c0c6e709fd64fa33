#!/bin/sh
# nothing is built ahead of time: every check compiles the harness against /repo's current headers. This only verifies that the tools are there.
cd "$(dirname "$0")" || exit 1
for t in clang++ g++ opt python3-vt c++filt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
command -v kissat >/dev/null || echo "note: kissat not found, z3 alone will be used"
python3-vt -c 'import z3, mpmath' || exit 1
mkdir -p evidence
