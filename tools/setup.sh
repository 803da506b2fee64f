#!/bin/sh
# Checks compile everything themselves from /repo; this only makes sure that
# the tools they need are there.
set -e
cd "$(dirname "$0")/.."
for t in g++ python3; do command -v $t >/dev/null || { echo "missing: $t"; exit 1; }; done
mkdir -p build evidence
python3 -c 'import json; json.load(open("MANIFEST.json"))'
echo 'int main(){}' | g++ -fsanitize=address,undefined -x c++ - -o build/.probe && build/.probe && rm -f build/.probe
echo ready
