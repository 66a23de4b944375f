#!/bin/bash
# Nothing is built ahead of time: every check compiles /repo's current tree itself. This only verifies the tools are there.
set -e
cd "$(dirname "$0")"
test -x /usr/bin/clang-18 && test -x /usr/bin/opt-18
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
mkdir -p evidence
python3-vt -m compileall -q engine check.py || true
