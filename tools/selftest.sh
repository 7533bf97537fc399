#!/bin/bash
# Every way in which the code under test can take the explorer down must end as a VIOLATION with exit code 1.
cd "$(dirname "$0")/.." || exit 2
bad=0
for x in X01 X02 X03 X04 X05 X06; do
  out=$(./run.sh $x quick 2>/dev/null); rc=$?
  path=$(sed -n "s/^VIOLATION property=$x replay=//p" <<< "$out" | head -1)
  if [ $rc = 1 ] && [ -s "$path" ] && python3 -c "import json,sys; j=json.load(open('$path')); sys.exit(j.get('idx')!=50)"; then echo "$x ok"; else echo "$x FAILED rc=$rc path=$path"; bad=1; fi
  rm -f "/verif/replays/$x-"*.json "/verif/evidence/$x.json"
done
exit $bad
