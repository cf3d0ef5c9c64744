#!/bin/bash
# Warms the build cache: builds every check's test binary once from /repo's tree.
cd "$(dirname "$0")" || exit 1
for id in $(python3 -c 'import json; print(*json.load(open("checks.json")))'); do
  python3 run.py "$id" --build || exit 1
done
exit 0
