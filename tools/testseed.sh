#!/bin/bash
# testseed.sh ID... : build, baseline tests, demo without/with the patch, and which checks notice (in a scratch copy)
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$V/seeded/$id; w=$(mktemp -d /tmp/ts.XXXXXX); cp -a /repo "$w/repo"
  dd=$w/elsewhere; mkdir "$dd"; (cd "$d" && cp -a demo.sh $(ls | grep -v -E 'demo.sh|meta.json|\.diff$|\.patch$') "$dd/") 2>/dev/null
  (cd "$w/repo" && timeout 300 bash "$dd/demo.sh" >"$w/clean.out" 2>&1); c=$?
  git -C "$w/repo" apply "$d/patch.diff" || echo "$id: patch does not apply"
  (cd "$w/repo" && timeout 300 bash "$dd/demo.sh" >"$w/bug.out" 2>&1); b=$?
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  out=$(VERIF_REPO=$w/repo "$V/check.sh" "$p" quick 2>&1); r=$?
  echo "$id [$p] demo clean=$c bug=$b ($(grep -m1 -E 'panicked|^error|assert' -A1 "$w/bug.out" | tr '\n' ' ' | cut -c1-160)) check rc=$r $(echo "$out" | grep -m1 '^  ' | cut -c1-${W:-150})"
  [ $c != 0 ] && head -${L:-8} "$w/clean.out" | cut -c1-200
  rm -r -- "$w"
done
