#!/bin/bash
# build.sh [program|sdk|client|all]: builds the harness crates, and the client with its library, from
# /repo's current tree (offline).
# Cargo decides by file times what to rebuild; so that a tree whose files are older than the last build is
# never taken for an unchanged one, a hash of the sources is kept and the repository's crates are rebuilt
# when it changed.
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=1.81 CARGO_NET_OFFLINE=true
mkdir -p /verif/target/sdk
exec 9>/verif/target/.verif-lock
flock 9

# build CRATE TARGET-DIR "SOURCE FOLDERS" "PACKAGES OF THE REPOSITORY"
build() {
  cd "$here/$1" || exit 2
  export CARGO_TARGET_DIR="$2"
  stamp="$2/.verif-sources"
  now="$(cd /repo && find $3 -name node_modules -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ -f "$stamp" ] && [ "$(cat "$stamp")" != "$now" ]; then
    clean=()
    for p in $4; do clean+=(-p "$p"); done
    cargo clean --release --offline -q "${clean[@]}" || exit 2
  fi
  rm -f "$stamp"
  cargo build --release --offline -q 9>&- || exit $?
  echo "$now" > "$stamp"
}

# The library compiled to WebAssembly, and the TypeScript client bundled with it. Both are cheap; cargo
# does not rebuild what has not changed.
client() {
  cd /repo/sdk/src/wasm || exit 2
  export CARGO_TARGET_DIR=/verif/target/wasm
  stamp=/verif/target/wasm/.verif-sources
  now="$(cd /repo && find sdk/src/wasm calc -name node_modules -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ -f "$stamp" ] && [ "$(cat "$stamp")" != "$now" ]; then
    for p in invariant-vara-wasm wasm_wrapper decimal decimal_core traceable_result; do
      cargo clean --release --offline -q --target wasm32-unknown-unknown -p "$p" || exit 2
    done
  fi
  rm -f "$stamp"
  cargo build --release --offline --locked -q --target wasm32-unknown-unknown 9>&- || exit $?
  echo "$now" > "$stamp"
  mkdir -p /verif/target/client
  node "$here/client/bundle.mjs" /verif/target/client/bundle.mjs \
    /verif/target/wasm/wasm32-unknown-unknown/release/invariant_vara_wasm.wasm || exit 2
}

what="${1:-all}"
if [ "$what" != sdk ]; then
  build harness /verif/target "src calc io extended-vft/app/src" "token-app token-app-plain invariant contracts io math decimal decimal_core traceable_result"
fi
if [ "$what" = sdk ] || [ "$what" = all ]; then
  build sdkharness /verif/target/sdk "sdk/src/wasm calc" "invariant-vara-wasm wasm_wrapper decimal decimal_core traceable_result"
fi
if [ "$what" = client ] || [ "$what" = all ]; then
  client
fi
