#!/bin/bash
# tools/mkseed.sh ID: make seeded/ID/patch.diff from the changes in the scratch copy /tmp/w/repo and reset it.
V=$(cd "$(dirname "$0")/.." && pwd); mkdir -p "$V/seeded/$1"
cd /tmp/w/repo && gofmt -l $(git diff --name-only) && git diff > "$V/seeded/$1/patch.diff" && git checkout -q -- . && wc -l "$V/seeded/$1/patch.diff"
