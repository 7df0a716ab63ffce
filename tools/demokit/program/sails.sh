#!/bin/bash
# The framework's library without its clients for nodes, which take minutes to compile.
from="$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/sails-rs-0.3.0 | head -1)"
cp -r "$from" sails-rs && cd sails-rs || exit 9
python3 - <<'P'
import re
t = open("src/lib.rs").read()
for m in ("gsdk", "gtest"):
    t = t.replace('#[cfg(not(target_arch = "wasm32"))]\npub mod %s;\n' % m, "")
open("src/lib.rs", "w").write(t)
t = open("src/errors.rs").read()
t = re.sub(r'    #\[cfg\(not\(target_arch = "wasm32"\)\)\]\n    #\[error\("codec: \{0\}"\)\]\n    GClient.*\n', "", t)
open("src/errors.rs", "w").write(t)
t = open("Cargo.toml").read()
t = t[: t.index("[target.'cfg(not(target_arch = \"wasm32\"))'.dependencies.gclient]")]
open("Cargo.toml", "w").write(t)
P
