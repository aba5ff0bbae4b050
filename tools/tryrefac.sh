#!/bin/bash
# tryrefac.sh PROPS NAME...   runs checks (C01,C02,... or ALL) against copies of /repo with behaviour-preserving changes from /verif/refactors: all must stay quiet
V="$(cd "$(dirname "$0")/.." && pwd)"
bin="$("$V/build.sh")" || exit 1
props="$1"; shift
[ "$props" = ALL ] && props=$(python3 -c "import json;print(','.join(c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']))")
[ $# = 0 ] && set -- $(cd "$V/refactors" && ls | sed 's/\.diff$//')
one() {
  w="$(mktemp -d /tmp/tr.XXXXXX)"
  mkdir -p "$w/verif/evidence"; cp "$V/known-findings.txt" "$w/verif/"
  rsync -a --exclude output --exclude png --exclude reference --exclude .git /repo/ "$w/repo/"
  (cd "$w/repo" && patch -s -p1 < "$V/refactors/$1.diff")
  "$bin" -repo "$w/repo" -verif "$w/verif" -prop "$props" ${VERB:+-v} > "$w/out" 2>&1
  rc=$?
  echo "== $1 rc=$rc"; grep -v '^  rule' "$w/out" | cut -c1-330 | head -${LINES_MAX:-12}
  rm -rf -- "$w"
}
export -f one; export V bin props LINES_MAX VERB
printf '%s\n' "$@" | xargs -P 7 -I{} bash -c 'one {}'
