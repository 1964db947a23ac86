#!/bin/bash
# Offline sanity check of the tools the checks use; nothing has to be built beforehand.
set -e
cd "$(dirname "$0")"
command -v clang++ >/dev/null && command -v g++ >/dev/null && command -v llvm-dis >/dev/null 2>&1 || command -v clang++ >/dev/null
/opt/veriftools/pyvenv/bin/python -c 'import z3, mpmath; print("z3", z3.get_version_string())'
/opt/veriftools/pyvenv/bin/python -c 'import sys; sys.path.insert(0, "."); import engine.main, engine.bits; print("engine ok")'
mkdir -p evidence
