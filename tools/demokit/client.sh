#!/bin/bash
# Bundles the client of the tree in /repo with small stand-ins and runs main.mjs on it, in a scratch folder.
here="$(cd "$(dirname "$0")" && pwd)"
rm -rf /tmp/vara-demo-@ID@
mkdir /tmp/vara-demo-@ID@ && cp -r "$here/demo/." /tmp/vara-demo-@ID@/ || exit 9
cd /tmp/vara-demo-@ID@ || exit 9
timeout 120 node run.mjs
code=$?
cd /
rm -rf /tmp/vara-demo-@ID@
exit $code
