#!/bin/bash
# show.sh REPLAY: the readable part of a replay file, and what the case does on /repo's current tree
here="$(cd "$(dirname "$0")" && pwd)"
python3 - "$1" <<'P'
import json,sys
j=json.load(open(sys.argv[1]))
print(j["signature"],j["message"][:1500],"| choices",len(j.get("choices",[])))
for t in j.get("trace",[]): print("  ",t[:400])
P
case "$(basename "$1")" in
  S*) part=sdk bin=/verif/target/sdk/release/sdkharness ;;
  *) part=program bin=/verif/target/release/harness ;;
esac
"$here/build.sh" $part && exec $bin replay "$1"
