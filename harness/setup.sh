#!/bin/sh
# Nothing is built: checks that the toolchain is there and that the modules parse.
set -e
cd "$(dirname "$0")/../spec"
/opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo'); import numpy, pyuff"
for m in *.tla; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo ok
