#!/bin/bash
# Builds every harness once, so that the checks only rebuild what changed.
cd "$(dirname "$0")/.." || exit 1
python3 tools/build.py || exit 1
echo setup done
