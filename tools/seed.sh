#!/bin/bash
# seed.sh ID... : validates seeded bugs (scratch copy), then runs the property's own check on them
cd "$(dirname "$0")/.." || exit 2
V=$PWD
one() {
  id=$1; d=$V/seeded/$id; w=/tmp/seed.$id
  rm -rf "/tmp/seed.$id"
  git -C /repo worktree add -q --detach "$w" HEAD || return
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  m=""
  mkdir -p /tmp/seeddemo.$id; cp -r "$d"/. /tmp/seeddemo.$id/; rm -f /tmp/seeddemo.$id/patch.diff /tmp/seeddemo.$id/meta.json
  (cd "$w" && timeout 300 env PYTHONPATH="$w" bash /tmp/seeddemo.$id/demo.sh >/tmp/seeddemo.$id.clean 2>&1) || m="$m DEMO-FAILS-CLEAN"
  (cd "$w" && git apply "$d/patch.diff") || m="$m NOAPPLY"
  (cd "$w" && timeout 300 env PYTHONPATH="$w" bash /tmp/seeddemo.$id/demo.sh >/tmp/seeddemo.$id.bad 2>&1) && m="$m DEMO-PASSES-PATCHED"
  (cd "$w" && PYTHONPATH="$w" timeout 300 /opt/venv/bin/python -m pytest -q tests 2>&1 | tail -1 >/tmp/seed.$id.tests)
  if [ -z "$NOCHECK" ]; then
  s=$(date +%s)
  MC_REPO=$w timeout 1500 bash run.sh $(echo "$p" | tr C c) ${TIER:+--tier $TIER} >/tmp/seed.$id.check 2>&1; rc=$?
  e=$(( $(date +%s) - s ))
  fi
  echo "$id $p rc=$rc ${e}s [$(cat /tmp/seed.$id.tests)] [$(tail -1 /tmp/seeddemo.$id.bad)] $m"
  git -C /repo worktree remove --force "$w"
  rm -rf "/tmp/seeddemo.$id"
}
for id in "$@"; do one "$id"; done
