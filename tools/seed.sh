#!/bin/bash
# seed.sh ID...: confirms planted bugs in a scratch copy of /repo: the patch
# applies, builds, passes the stable tests, and the demonstration tells the two
# apart.  (Not used by any check.)
. /opt/vp/env.sh
for id in "$@"; do
  d=/verif/seeded/$id
  w=$(mktemp -d /tmp/seed-XXXXXXXX)
  cp -a /repo/. "$w/"
  cd "$w"
  git checkout -q -- . 2>/dev/null
  bad=
  bash "$d/demo.sh" > "$w.a" 2>&1 || bad="demo fails on the unchanged tree: $(tail -3 $w.a)"
  git apply "$d/patch.diff" || bad="$bad; patch does not apply"
  go build ./... || bad="$bad; does not build"
  bash "$d/demo.sh" > "$w.b" 2>&1 && bad="$bad; demo passes with the patch"
  grep -q BROKEN "$w.b" || bad="$bad; demo does not say why: $(tail -5 $w.b)"
  # the tests run in /repo
  cd /repo && git diff --quiet && git apply "$d/patch.diff" && { bash /opt/vp/test.sh "$w.json" > "$w.t" 2>&1; tail -1 "$w.t"; git checkout -q -- .; }
  grep -q "62 passed, 0 failed" "$w.t" || bad="$bad; tests: $(tail -1 $w.t)"
  echo "$id: ${bad:-ok} [$(grep BROKEN $w.b | head -1 | cut -c1-150)]"
  rm -rf "$w" "$w.a" "$w.b" "$w.t" "$w.json"
done
