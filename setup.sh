#!/bin/sh
# Parses every specification and checks the arithmetic module's unit tests.
cd "$(dirname "$0")/spec" || exit 1
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
java -cp $CP -Djava.io.tmpdir="$T" tlc2.TLC -metadir "$T" -noGenerateSpecTE -config NumTest.cfg NumTest.tla > "$T/log" 2>&1 || { cat "$T/log"; exit 1; }
for f in *.tla; do
  java -cp $CP -Djava.io.tmpdir="$T" tla2sany.SANY "$f" > "$T/log" 2>&1 || { cat "$T/log"; exit 1; }
done
/opt/venv/bin/python -c "import sys; sys.dont_write_bytecode=True; import artemis" || exit 1
echo "setup ok"
