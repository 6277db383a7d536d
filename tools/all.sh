#!/bin/sh
# every claimed check, several at a time: tools/all.sh [jobs]
cd "$(dirname "$0")/.." || exit 2
ls hf/props/c[0-9]*.py | sed 's/.*c\([0-9]*\).py/C\1/' | xargs -P "${1:-6}" -I{} sh -c 'python3 -m hf.check {} > /tmp/out_{}.txt 2>&1; echo "{} rc=$? $(tail -1 /tmp/out_{}.txt)"'
