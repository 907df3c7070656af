#!/bin/bash
# Nothing is compiled ahead of time: checks run the Python code of /repo directly.
# Parse every specification once so that a broken one is noticed here.
cd "$(dirname "$0")/spec" || exit 1
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for f in *.tla; do
  java -cp $J tla2sany.SANY "$f" > /tmp/vsany.$$ 2>&1 || { cat /tmp/vsany.$$; rm -f /tmp/vsany.$$; exit 1; }
done
rm -f /tmp/vsany.$$
/opt/venv/bin/python -c "import sys; sys.path.insert(0,'/repo'); import freegs, numpy, scipy"
