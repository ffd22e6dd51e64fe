#!/bin/bash
# Everything a check needs is built by the check itself (run.sh); this only verifies that the tools are there.
set -e
for t in g++ cmake ninja; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -d /usr/include/eigen3
echo ready
