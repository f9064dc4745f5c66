#!/bin/bash
# Nothing is compiled: checks the tools and the specification.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
test -x /opt/venv/bin/python
java -version 2>/dev/null
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp spec/*.tla "$tmp"
cd "$tmp"
for f in Trace MC*; do
  f=${f%.tla}
  [ -e "$f.tla" ] || continue
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f.tla" >"$f.log" 2>&1 || { cat "$f.log"; exit 1; }
done
echo setup done
