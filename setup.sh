#!/bin/bash
# Nothing to build ahead of time: every check compiles /repo's current sources itself.
set -e
for t in cbmc goto-cc goto-instrument gcc python3; do command -v "$t" > /dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p "$(dirname "$0")/evidence/replays"
cbmc --version
