#!/bin/bash
# trybug.sh <patch> <check...>: run checks against a patched scratch copy of
# /repo (outside /repo and /verif), removed afterwards.
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/bug_XXXX)
git -C /repo archive HEAD | tar x -C "$d"
( cd "$d" && git init -q . && git apply "$p" ) || { echo "PATCH FAILS"; rm -rf "${d:?}"; exit 9; }
for c in "$@"; do
  LEGUME_REPO="$d" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python /verif/checks/$c.py > "$d/out" 2>&1
  echo "== $c rc=$?"; tail -${LINES_OUT:-6} "$d/out"
done
rm -rf "${d:?}"
