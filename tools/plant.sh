#!/bin/bash
# plant.sh ID [quick-check]: confirm /verif/seeded/ID (and, with a second argument, run the property's quick check on it).
# Works on /repo's working tree and puts it back.
set -u
S=/verif/seeded/$1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/plant-build.log 2>&1 || { echo "base build failed"; exit 1; }
if [ "${2:-}" != check ]; then
(cd /repo && bash "$S/demo.sh" >/tmp/plant-demo.log 2>&1) && echo "demo ok on base" || { echo "demo FAILS on base"; tail -20 /tmp/plant-demo.log; }
fi
git -C /repo apply "$S/patch.diff" || { echo "does not apply"; exit 1; }
if [ "${2:-}" != check ]; then
bash /verif/tools/t.sh
(cd /repo && bash "$S/demo.sh" >/tmp/plant-demo.log 2>&1) && echo "demo PASSES with patch" || { echo "demo fails with patch (good)"; tail -4 /tmp/plant-demo.log; }
fi
if [ -n "${2:-}" ]; then
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  (cd /verif && VERIF_SEED=${VERIF_SEED:-1} bash run.sh "$P" quick 2>&1 | cut -c1-200 | head -${LINES_MAX:-12}; echo "exit ${PIPESTATUS[0]}")
fi
