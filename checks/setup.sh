#!/bin/bash
# Checks that the tools are there; every check builds what it needs itself.
set -e
cd "$(dirname "$0")/.."
command -v verus > /dev/null
python3 -c 'import json'
mkdir -p build evidence
