#!/bin/bash
# bug.sh start            make the scratch copy /tmp/bug of /repo
# bug.sh save ID PROP PKG "needs" "breaks" [go test flags]   save the change in /tmp/bug (demo in /tmp/demo_test.go) as seeded/ID
# bug.sh try ID           confirm the bug and run the check of its property
V="$(cd "$(dirname "$0")/.." && pwd)"
case "$1" in
start) mkdir -p /tmp/bug && rsync -a --delete --exclude output --exclude png --exclude reference /repo/ /tmp/bug/ && cd /tmp/bug && git checkout -q -- . ;;
save)
  id="$2"; d="$V/seeded/$id"; mkdir -p "$d"
  (cd /tmp/bug && git diff) > "$d/patch.diff"
  cp /tmp/demo_test.go "$d/demo_test.go"
  sed -e "s#@PKG@#$4#g" -e "s#@FLAGS@#$7#g" "$V/tools/demo.sh.tmpl" > "$d/demo.sh"; chmod +x "$d/demo.sh"
  python3 - "$d" "$3" "$5" "$6" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
  (cd /tmp/bug && git checkout -q -- .)
  "$0" try "$id" ;;
try)
  id="$2"; d="$V/seeded/$id"; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo; [ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 1; }
  if [ -z "$NODEMO" ]; then bash "$d/demo.sh" > /tmp/demo.out 2>&1; echo "demo unpatched rc=$?"; fi
  git apply "$d/patch.diff" || exit 1
  trap 'git -C /repo checkout -q -- .' EXIT
  if [ -z "$NODEMO" ]; then
  bash "$d/demo.sh" > /tmp/demo.out 2>&1; echo "demo patched rc=$?"; tail -4 /tmp/demo.out
  bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILS
  bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1
  python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/out.json'))
m=[t for t in b['stable'] if t not in set(o['passed'])]
print('stable tests failing:',m[:3])"
  fi
  [ -n "$NOCHECK" ] && exit 0
  cd "$V" && ./check.sh "$prop" quick | grep -v '^  rule'; echo "check rc=${PIPESTATUS[0]}" ;;
esac
