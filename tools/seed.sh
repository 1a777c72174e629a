#!/bin/bash
# tools/seed.sh make ID PROPERTY "needs" "what it breaks"  : patch from /tmp/seedwork (a copy of /repo with the change), demo.py from stdin
# tools/seed.sh test ID...   : builds, demo on both trees, unit tests, check with the patch applied to /repo
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
case "$1" in
new)
  rm -rf /tmp/seedwork; cp -a /repo /tmp/seedwork; git -C /tmp/seedwork checkout -q -- . ;;
make)
  d=$V/seeded/$2; mkdir -p "$d"
  git -C /tmp/seedwork diff > "$d/patch.diff"
  git -C /tmp/seedwork checkout -q -- .
  cp "$V/tools/seedkit/fd.py" "$d/fd.py"
  cat > "$d/demo.py"
  printf '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /usr/bin/python3 "$(dirname "$0")/demo.py"\n' > "$d/demo.sh"
  chmod +x "$d/demo.sh"
  python3 - "$d" "$3" "$4" "$5" <<'PY'
import json, sys
json.dump(dict(property=sys.argv[2], needs=sys.argv[3], what_it_breaks=sys.argv[4]), open(sys.argv[1] + "/meta.json", "w"), indent=1)
PY
  wc -l "$d/patch.diff" ;;
test)
  shift
  for id in "$@"; do
    d=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
    bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1 || echo "$id: BUILD FAILS"
    bash /opt/vp/test.sh /tmp/seed-out.json > /tmp/seed-test.log 2>&1 || echo "$id: tests rc"
    (cd /repo && bash "$d/demo.sh") > /tmp/seed-demo.log 2>&1; rc=$?
    (cd "$V" && ./check "$p") > /tmp/seed-check.log 2>&1; crc=$?
    git -C /repo checkout -- .
    echo "$id $p: demo with bug rc=$rc; check rc=$crc $(grep -c '^VIOLATION property='$p /tmp/seed-check.log) ; $(tail -n 1 /tmp/seed-demo.log | cut -c1-150) | $(grep -v ^VIOL /tmp/seed-check.log | tail -n 1 | cut -c1-160)"
  done ;;
demo)
  shift
  bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1
  for id in "$@"; do (cd /repo && bash "$V/seeded/$id/demo.sh") > /tmp/seed-demo.log 2>&1; echo "$id unchanged rc=$? $(tail -n 1 /tmp/seed-demo.log | cut -c1-200)"; done ;;
esac
