#!/bin/bash
# Builds what the demonstration needs from the current directory (the repository)
# in a scratch directory and runs demo.py there.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd "$T"
python3 "$HERE/demo.py" "$REPO" "$HERE" "$T"
