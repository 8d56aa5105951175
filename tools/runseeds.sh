#!/bin/bash
# tools/runseeds.sh [ID...]: which checks catch which planted bug (in a scratch copy under /tmp/rs)
cd /verif
mkdir -p /tmp/rs; rm -rf /tmp/rs/build; cp -a build /tmp/rs/build
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  rm -rf /tmp/rs/repo; mkdir -p /tmp/rs/repo; cp -a /repo/Cargo.* /repo/src /tmp/rs/repo/
  (cd /tmp/rs/repo && git init -q . 2>/dev/null; git apply /verif/seeded/$s/patch.diff) || { echo "$s does not apply"; continue; }
  t=$(date +%s); out=$(PA_REPO=/tmp/rs/repo PA_BUILD=/tmp/rs/build PA_EVIDENCE=/tmp/rs/ev ./check $p quick 2>&1); rc=$?
  echo "$s $p rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep -o '\[rule [^]]*\]' | sort -u | tr '\n' ' ')"
done
