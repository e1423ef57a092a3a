#!/bin/bash
# trymut.sh NAME PATCH|-R:COMMIT PROPERTY...: runs checks against a scratch copy of /repo with a change
# (a patch file, or the reverse of a commit), leaving /repo alone.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
name=$1 patch=$2; shift 2
d=/tmp/mut/$name; rm -rf "$d"; mkdir -p "$d"
git -C /repo archive --prefix=repo/ HEAD | tar -x -C "$d"
if [[ $patch == -R:* ]]; then
  git -C /repo diff ${patch#-R:} ${patch#-R:}^ > "$d/p.diff"
else cp "$patch" "$d/p.diff"; fi
(cd "$d/repo" && patch -p1 -s < ../p.diff) || { echo "$name: patch does not apply"; exit 9; }
for p in "$@"; do
  out=$(VERIF_REPO=$d/repo VERIF_BUILD=$d/build VERIF_GOCACHE=$V/.build/gocache VERIF_SEED=${VERIF_SEED:-1} timeout 900 bash "$V/check.sh" $p 2>&1); rc=$?
  echo "$name $p rc=$rc $(echo "$out" | grep -a -m1 '^violated' | cut -c1-220)"
  [ -n "${VERBOSE:-}" ] && echo "$out"
done
rm -rf "$d"
