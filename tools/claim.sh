#!/bin/bash
# claim.sh: regenerate properties.jsonl and MANIFEST.json for the claimed properties listed in tools/claim.txt
cd "$(dirname "$0")/.."
python3-vt tools/write_properties.py && CLAIM="$(cat tools/claim.txt)" python3-vt tools/write_manifest.py
