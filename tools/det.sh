#!/bin/bash
# details of the recorded violations whose key matches: tools/det.sh KEY-REGEX [lines] (after a check run)
cd "${VERIF_BUILD:-$(dirname "$0")/../build}/replay" && grep -lE -- "$1" *.txt | xargs -r ls -t | head -1 | xargs -r sed 's/\\n/\n/g' | head -"${2:-25}" | cut -c1-400
