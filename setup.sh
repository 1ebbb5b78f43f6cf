#!/bin/bash
# Nothing is built ahead: every check compiles /repo itself.  This only checks that the tools are there.
set -e
for t in /usr/lib/llvm-18/bin/clang /usr/lib/llvm-18/bin/opt /usr/lib/llvm-18/bin/llvm-link gcc python3-vt; do
	command -v "$t" >/dev/null || { echo "missing: $t"; exit 1; }
done
cd "$(dirname "$0")"
python3-vt -c 'import z3, numpy; from engine import ir, exec, loops, codec, wrap, intrin, asmlift'
mkdir -p evidence
echo ok
