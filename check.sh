#!/bin/bash
# check.sh ID quick|thorough: builds from /repo's current tree, then runs one check.
here="$(cd "$(dirname "$0")" && pwd)"
case "$1" in
  S*) part=sdk bin=/verif/target/sdk/release/sdkharness ;;
  T*) part=client bin=/verif/target/release/harness ;;
  *) part=program bin=/verif/target/release/harness ;;
esac
log="$(mktemp)"
if ! "$here/build.sh" $part >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"; echo "the harness does not build"; exit 2
fi
rm -f "$log"
exec $bin run "$1" "${2:-quick}"
