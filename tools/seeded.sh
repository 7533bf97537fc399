#!/bin/bash
# tools/seeded.sh [-a] [ID...]: applies each planted bug to /repo, runs its property's quick check
# (-a: every check), and undoes it. Needs a clean /repo. Prints which checks report a violation.
cd "$(dirname "$0")/.." || exit 2
all=; [ "$1" = -a ] && { all=1; shift; }
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
ids=("$@"); [ $# -gt 0 ] || ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  if ! ./run.sh --build > /tmp/seeded.build 2>&1; then echo "$id $p NOBUILD"; else
    line=
    for c in $([ "$all" ] && ls evidence | sed 's/\.json//' | sort || echo "$p"); do
      timeout 900 ./run.sh "$c" quick > /tmp/seeded.out 2>&1; rc=$?
      [ $rc = 0 ] || line="$line $c($rc)"
      grep -q "^VIOLATION property=$c " /tmp/seeded.out && [ $rc = 1 ] && line="$line!"
    done
    case "$line" in *"$p(1)!"*) v=CAUGHT;; *) v=MISSED;; esac
    echo "$id $p $v:$line"
  fi
  git -C /repo checkout -- .
done
./run.sh --build
