#!/bin/bash
# Builds the driver from /repo's working tree; prints the path of the binary.
# build.sh [race]
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${VERIF_REPO:-/repo}
mkdir -p "$here/out/bin"
ov="$here/out/overlay.$$.json"
python3 - "$here" "$repo" > "$ov" <<'P'
import glob, json, os, sys
here, repo = sys.argv[1:3]
print(json.dumps({"Replace": {os.path.join(repo, "cmd/verifdriver", os.path.basename(f)): f
    for f in sorted(glob.glob(os.path.join(here, "driver", "*.go")))}}))
P
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
name=driver
flags=
if [ "$1" = race ]; then name=driver-race; flags=-race; fi
tmp="$here/out/bin/$name.$$"
(cd "$repo" && go build $flags -overlay "$ov" -o "$tmp" ./cmd/verifdriver) || { rm -f "$ov"; exit 1; }
rm -f "$ov"
mv "$tmp" "$here/out/bin/$name"
echo "$here/out/bin/$name"
