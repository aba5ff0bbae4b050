#!/bin/bash
# trybugs.sh ID...   runs the check of its property against a patched copy of /repo for each seeded change, in parallel (ALSO="C01,C02": these too)
V="$(cd "$(dirname "$0")/.." && pwd)"
bin="$("$V/build.sh")" || exit 1
[ $# = 0 ] && set -- $(ls "$V/seeded")
one() {
  id="$1"; d="$V/seeded/$id"; w="$(mktemp -d /tmp/tb.XXXXXX)"
  mkdir -p "$w/verif/evidence"; cp "$V/known-findings.txt" "$w/verif/"
  rsync -a --exclude output --exclude png --exclude reference --exclude .git /repo/ "$w/repo/"
  (cd "$w/repo" && git apply --unsafe-paths --directory="$w/repo" "$d/patch.diff" 2>/dev/null || patch -s -p1 < "$d/patch.diff")
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  "$bin" -repo "$w/repo" -verif "$w/verif" -prop "$prop${ALSO:+,$ALSO}" > "$w/out" 2>&1
  rc=$?
  echo "== $id ($prop) rc=$rc"; grep -v '^  rule' "$w/out" | cut -c1-220 | head -${LINES_MAX:-6}
  rm -rf -- "$w"
}
export -f one; export V bin ALSO LINES_MAX
printf '%s\n' "$@" | xargs -P 7 -I{} bash -c 'one {}'
