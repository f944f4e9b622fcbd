#!/bin/bash
# Nothing to build: parse every specification once and check the interpreter imports the code.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
T=$(mktemp -d /tmp/verif_setup.XXXXXX)
cp spec/*.tla "$T"/
rc=0
for f in "$T"/*.tla; do
  (cd "$T" && java -Djava.io.tmpdir="$T" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")") > "$T/log" 2>&1 || { echo "parse error in $(basename "$f")"; tail -20 "$T/log"; rc=1; }
done
case "$T" in /tmp/verif_setup.*) rm -rf "$T";; esac
[ -x /opt/venv/bin/python ] || rc=1
exit $rc
