#!/bin/bash
# nothing to build: checks that the tools are there and that the specification parses
set -e
cd "$(dirname "$0")/../spec"
test -x /opt/venv/bin/python
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo setup ok
