#!/bin/bash
# nothing to build ahead of time: the verifier is Python, and every check compiles /repo's sources itself
cd "$(dirname "$0")"
set -e
mkdir -p evidence
python3-vt -B -c 'import z3; print("z3", z3.get_version_string())'
clang --version | head -1
