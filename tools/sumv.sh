#!/bin/bash
# summarise the violations of a check run: tools/sumv.sh P06 [quick]
cd "$(dirname "$0")/.." && python3 check.py "$1" "${2:-quick}" 2>&1 | grep -v "^VIOLATION" | cut -c1-"${3:-260}"
