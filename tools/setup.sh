#!/bin/bash
# Checks the toolchain, parses every module, and checks the Java overrides of BigNat against the
# TLA+ definitions.
set -e
cd "$(dirname "$0")/.."
W=$(mktemp -d /tmp/aesi-setup.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir "$W/cls"
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -d "$W/cls" java/aesi/BigNatOverrides.java
cd spec
../lib/tlc.sh "$W/cls" "$W/meta" -workers 4 -config BigNatCheck.cfg BigNatCheck.tla > "$W/out" 2>&1 || { cat "$W/out"; exit 1; }
grep -q "No error has been found" "$W/out"
echo "setup: BigNat overrides agree with their TLA+ definitions"
