#!/bin/bash
# seed.sh DIR...: validates planted bugs in a scratch copy of /repo (patch applies, builds, passes the tests, demo differs).
. /opt/vp/env.sh 2>/dev/null
for d in $(realpath -e "$@"); do
  w=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a "${GOSYM_REPO:-/repo}" "$w/repo"; mkdir "$w/demo"; cp "$d"/* "$w/demo"; rm -f "$w"/demo/patch.diff "$w"/demo/meta.json
  cd "$w/repo" || exit 1
  bash "$w/demo/demo.sh" >"$w/clean.log" 2>&1; a=$?
  if ! git apply "$d/patch.diff"; then echo "$(basename $d): PATCH DOES NOT APPLY"; continue; fi
  b=$(go build ./... 2>&1 && go vet ./... 2>&1 | tail -3); t=$(go test ./... 2>&1 | grep -c -- '--- FAIL\|^FAIL\|build failed')
  bash "$w/demo/demo.sh" >"$w/bug.log" 2>&1; c=$?
  echo "$(basename $d): clean=$a bug=$c failing-tests=$t build='$b'"
  [ $a = 0 ] || tail -5 "$w/clean.log"; [ -n "$V" ] && tail -8 "$w/bug.log"
  rm -rf "$w"
done
