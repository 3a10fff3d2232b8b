#!/bin/bash
# replay.sh PROPERTY FILE: runs one recorded input against the real code in /repo
cd "$(dirname "$0")"
exe=$(python3 tools/build_harness.py "$1") || { echo "$exe"; exit 2; }
ASAN_OPTIONS=detect_leaks=0 exec "$exe" "$1" --replay "$2"
