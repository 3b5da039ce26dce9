#!/bin/bash
# Fills the build cache; every check builds again from /repo's working tree.
set -e
cd "$(dirname "$0")/.."
bash tools/build.sh > /dev/null
python3 -c 'import sys; sys.path.insert(0, "tools"); import plan'
tlc -h > /dev/null 2>&1 || true
