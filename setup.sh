#!/bin/bash
# Checks that the tools the framework needs are present and that all specifications parse.
cd "$(dirname "$0")" || exit 1
command -v java g++ python3 >/dev/null || { echo "java, g++ and python3 are needed"; exit 1; }
W="$(mktemp -d)"; rc=0
cd spec; for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >"$W/out" 2>&1 || { cat "$W/out"; rc=1; }
done
rm -rf "$W"; exit $rc
