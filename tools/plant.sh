#!/bin/bash
# plant.sh ID...: for each seeded bug: applies, builds, stable tests pass, demo 0 without / nonzero with the patch, and what the check says
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  s=$(mktemp -d /tmp/plantXXXX); cp -a /repo "$s/repo"
  cd "$s/repo"
  bash "$d/demo.sh" > "$s/demo0" 2>&1; r0=$?
  git apply "$d/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$s"; continue; }
  b=$(CARGO_TARGET_DIR="$s/repo/target" cargo test --workspace --offline --no-fail-fast -- --test-threads 8 2>&1 | grep -E "^test result|error(\[|:)|^test .*FAILED|panicked" | sort | uniq -c | tr '\n' ';')
  bash "$d/demo.sh" > "$s/demo1" 2>&1; r1=$?
  cd /verif
  if [ -z "$NOCHECK" ]; then
  out=$(VP_REPO="$s/repo" VP_BUILD=/verif/build_plant timeout 900 python3 check.py ${CHECK:-$prop} 2>&1); rc=$?
  fi
  echo "== $id ($prop): demo $r0 -> $r1; check exit $rc"; echo "   tests: $b"; [ $r0 = 0 ] || tail -5 "$s/demo0"; tail -2 "$s/demo1" | cut -c1-200
  echo "$out" | tail -4 | cut -c1-400 | sed 's/^/   | /'
  rm -rf "$s"
done
