#!/bin/bash
# Nothing needs to be installed: every check builds what it needs in its own scratch
# directory.  This only verifies that the tools are there and the specifications parse.
set -e
cd "$(dirname "$0")"
for t in java gcc /opt/venv/bin/python; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
gcc -O1 -shared -fPIC -w -o "$d/vshim.so" harness/vshim.c -ldl -lpthread
cp=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cp spec/*.tla "$d"
(cd "$d" && for m in *.tla; do java -cp $cp tla2sany.SANY "$m" >"$d/out" 2>&1 || { cat "$d/out"; exit 1; }; done)
echo "setup ok"
