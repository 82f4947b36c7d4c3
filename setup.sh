#!/bin/bash
# build the MIR extractor and warm the dependency build
HERE="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$HERE/.cache"
bash "$HERE/dump.sh" "$HERE/.cache/setup.json" && rm -f "$HERE/.cache/setup.json"
