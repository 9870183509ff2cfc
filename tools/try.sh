#!/bin/bash
# try.sh PATCH PROP...: run checks against a scratch copy of /repo with PATCH applied (evidence goes to a scratch copy of /verif too)
set -e
P=$(realpath "$1"); shift
D=$(mktemp -d /tmp/vtry.XXXX)
cp -a /repo "$D/repo"; mkdir "$D/verif"; cp -a /verif/run.py /verif/harness /verif/spec "$D/verif/"; cp -a /verif/known_findings.json "$D/verif/" 2>/dev/null || true
git -C "$D/repo" apply "$P"
for c in "$@"; do
  VERIF_REPO="$D/repo" python3 "$D/verif/run.py" "$c" "${TIER:-quick}" > "$D/out" 2>&1 && rc=0 || rc=$?
  echo "$c rc=$rc: $(grep -v VIOLATION "$D/out" | grep -E 'violated|Error|quick:|thorough:' | head -${LINES_MAX:-2} | cut -c1-300)"
done || true
rm -rf "$D"
