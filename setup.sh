#!/bin/bash
# Nothing to build ahead of time: checks parse /repo's sources and run TLC.  Verify that the tools are there.
set -e
cd "$(dirname "$0")"
command -v tlc >/dev/null
python3 -c "import sys; assert sys.version_info >= (3, 10)"
python3 tools/claims.py
git diff --exit-code --stat -- MANIFEST.json properties.jsonl || true
