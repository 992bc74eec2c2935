#!/bin/bash
# seedcheck.sh ID...: apply each planted change to a copy of /repo, run its demo (with and without the change) and
# its property's check against the copy. Prints one line per change.
cd /verif
C=$(mktemp -d /tmp/seedrepo.XXXXXX); trap 'rm -rf "$C"' EXIT
git -C ${SRC:-/repo} archive HEAD | tar -x -C "$C"; (cd "$C"; git init -q; git add -A >/dev/null; git -c user.name=x -c user.email=x@x commit -qm x)
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd "$C" && timeout 300 bash $d/demo.sh >/tmp/demo0_$id.log 2>&1); d0=$?
  git -C "$C" apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd "$C" && timeout 300 bash $d/demo.sh >/tmp/demo1_$id.log 2>&1); d1=$?
  s=$(date +%s); VP_REPO=$C VP_EVIDENCE=/tmp/seedev python3 check.py $p --tier quick >/tmp/seed_$id.log 2>&1; c=$?; e=$(date +%s)
  git -C "$C" checkout -q -- .
  v=$(grep -c "^VIOLATION property=$p " /tmp/seed_$id.log)
  echo "$id [$p] demo clean=$d0 patched=$d1 check=$c violations=$v $((e-s))s $(grep '^case' /tmp/seed_$id.log | head -1 | cut -c1-160)"
done
