#!/bin/bash
# Sensitivity: undo each repair listed in known_findings.txt in a scratch copy and run the check it belongs to.
cd "$(dirname "$0")/.."
T=$(mktemp -d /tmp/sens.XXXXXX)
grep ^fixed: known_findings.txt | while read -r _ p c what; do
  [ -n "$1" ] && [ "$1" != "${p#property=}" ] && continue
  cp -a /repo "$T/r"
  if git -C "$T/r" -c user.name=x -c user.email=x revert --no-commit "$c" >/dev/null 2>&1; then
    r=$(VERIF_REPO="$T/r" /opt/venv/bin/python check.py "${p#property=}" 2>&1 | tail -2 | tr '\n' ' ' | cut -c1-220)
  else r="CONFLICT"; fi
  echo "$c $p | $what | $r"
  rm -rf "$T/r"
done
rm -rf "$T"
