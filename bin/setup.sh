#!/bin/bash
# Builds the harness once; the checks rebuild what changed.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
python3 lib/runner.py --build
