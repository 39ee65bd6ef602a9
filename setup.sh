#!/bin/bash
# Nothing to compile ahead of time: every check drives /repo's working tree directly.
set -e
cd "$(dirname "$0")"
python3 --version >/dev/null
node --version >/dev/null
mkdir -p evidence
