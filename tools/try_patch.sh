#!/bin/sh
# tools/try_patch.sh PATCH|revert:COMMIT CHECK...   apply to /repo, run the checks, undo.
p=$1; shift
case $p in
  revert:*) git -C /repo show "${p#revert:}" | git -C /repo apply -R || exit 9 ;;
  *) git -C /repo apply "$p" || exit 9 ;;
esac
for c in "$@"; do
  python3 /verif/check.py "$c" | cut -c1-220 | grep -E "VIOLATION|mechanism|INCONC|KNOWN|quick|thorough" ; echo "== $c"
done
git -C /repo checkout -q -- .
git -C /repo status --short
