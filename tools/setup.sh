#!/bin/bash
# Checks build what they need themselves; this only makes sure the tools are there.
set -e
cd "$(dirname "$0")/.."
java -version >/dev/null 2>&1
clang++-18 --version >/dev/null
python3 -c 'import json' 
echo ok
