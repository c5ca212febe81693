#!/bin/bash
# Run every registered check in the given tier; print one line each.
cd "$(dirname "$0")/.."
for p in ${2:-$(python3 -c 'import json;print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])')}; do
    python3 run.py $p --tier ${1:-quick} > /tmp/all.$p.log 2>&1; echo "exit $? $(grep -h "^\[$p\] ${1:-quick}" /tmp/all.$p.log) $(grep -c '^VIOLATION\|fatal' /tmp/all.$p.log)"
done
