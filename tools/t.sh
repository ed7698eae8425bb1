#!/bin/bash
# develop a check: build + run quick; prints the first compile errors or the violation summary
cd "$(dirname "$0")/.."; python3 check.py "$1" "${2:-quick}" > /tmp/t.$1 2>&1
if grep -q "BUILD-ERROR\|: error:\|undefined reference" /tmp/t.$1; then grep -E "error:|undefined reference" -A2 /tmp/t.$1 | head -"${4:-18}" | cut -c1-260; else grep -v "^VIOLATION" /tmp/t.$1 | cut -c1-"${3:-260}" | head -${KEYS:-45}; fi
