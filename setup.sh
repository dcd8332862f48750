#!/bin/bash
# Nothing to build ahead: each check compiles from /repo. Verifies the tools and the specification.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
command -v /usr/bin/g++-14 java python3 >/dev/null
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp spec/*.tla "$d"
for m in Trace MC Laws Static; do
  (cd "$d" && java -Djava.io.tmpdir="$d" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla) > "$d/log" 2>&1 || { cat "$d/log"; exit 1; }
  ! grep -q "Semantic errors\|Parsing or semantic" "$d/log" || { cat "$d/log"; exit 1; }
done
echo ok
