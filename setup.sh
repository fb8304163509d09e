#!/bin/bash
# Nothing is compiled: checks that the toolchain is present and that every specification parses.
cd "$(dirname "$(realpath "$0")")" || exit 1
command -v java >/dev/null || { echo "java missing"; exit 1; }
[ -x /opt/venv/bin/python ] || { echo "/opt/venv/bin/python missing"; exit 1; }
[ -f /opt/veriftools/tla/tla2tools.jar ] || { echo "TLC missing"; exit 1; }
T=$(mktemp -d /tmp/vfsetup.XXXXXX); trap 'rm -rf "$T"' EXIT
rc=0
cd spec
for f in MC_*.tla Trace_*.tla; do
  java -Djava.io.tmpdir="$T" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$T/o" 2>&1 || { echo "cannot parse $f"; tail -5 "$T/o"; rc=1; }
done
exit $rc
