#!/bin/bash
# Nothing is kept from here: every check builds what it needs in its own scratch directory. This only makes sure that
# the toolchain is there and the specifications parse.
set -e
cd "$(dirname "$0")"
command -v java javac g++ python3 >/dev/null
d=$(mktemp -d)
javac -cp /opt/veriftools/tla/tla2tools.jar -d "$d" java/*.java
cd spec
for f in *.tla; do
  java -cp "$d:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" tla2sany.SANY "$f" > "$d/out" 2>&1 || { cat "$d/out"; rm -rf "$d"; exit 1; }
done
rm -rf "$d"
echo setup ok
