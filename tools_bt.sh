#!/bin/bash
# usage: tools_bt.sh PROP REPLAYFILE  -- debugging aid: symbolised backtrace of a failing case
cd "$(dirname "$0")"
E=$(VERIF_G=1 python3 build.py "$1") || exit 2
PBT_BT=1 $E debug "$2" > /tmp/dbg.out 2>&1
B=$(python3 - "$E" <<'P'
print(0x555555554000)
P
)
while read -r line; do
  if [[ $line == BT* ]]; then a=$(( ${line#BT } - B )); addr2line -C -f -p -i -e "$E" $(printf '%x' $a) | grep -v '^??' | sed 's/^/   /' | cut -c1-200 | head -3; else echo "$line"; fi
done < /tmp/dbg.out
