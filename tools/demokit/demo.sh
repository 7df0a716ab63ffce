#!/bin/bash
# Builds the small program in demo/ against the tree in /repo and runs it, all in a scratch folder.
here="$(cd "$(dirname "$0")" && pwd)"
rm -rf /tmp/vara-demo-@ID@
mkdir /tmp/vara-demo-@ID@ && cp -r "$here/demo" /tmp/vara-demo-@ID@/demo || exit 9
cd /tmp/vara-demo-@ID@/demo || exit 9
export HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=1.81 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/vara-demo-@ID@/target
[ ! -f sails.sh ] || bash sails.sh || exit 9
cargo build -q --offline && timeout 60 /tmp/vara-demo-@ID@/target/debug/demo
code=$?
cd /
rm -rf /tmp/vara-demo-@ID@
exit $code
