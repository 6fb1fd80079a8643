#!/bin/sh
# Nothing to build: checks that the tools are there and that every specification parses.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c 'import numpy, sortedcontainers, attr'
mkdir -p evidence
for m in specs/*.tla; do
    (cd specs && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")") >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f "/tmp/sany.$$"
