#!/bin/sh
# Nothing to install: every check builds from /repo. Verify the tools are there.
set -e
cd "$(dirname "$0")"
for t in gcc g++ make python3 node wasm-ld clang-format /usr/bin/clang /usr/bin/clang++ /opt/veriftools/node/node_modules/.bin/esbuild; do
    command -v "$t" >/dev/null || { echo "missing tool: $t"; exit 1; }
done
mkdir -p evidence .build
python3 -m py_compile check.py py_checks.py js_check.py harness/py_worker.py harness/js_worker.py
echo ok
