#!/bin/bash
# Nothing to compile: parse every specification once and make sure the code under test and the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
command -v java >/dev/null
/opt/venv/bin/python -c 'import sys; sys.path.insert(0, "/repo"); import resqpy.model'
cd spec
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo setup ok
