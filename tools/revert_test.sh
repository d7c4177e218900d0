#!/bin/bash
# revert_test.sh COMMIT PROPERTY...: the checks must report the defect again when the fix commit is reverted
c=$1; shift
W=/tmp/revwt.$$; rm -rf "$W"; git -C /repo worktree add -q --detach "$W" HEAD && (cd "$W" && git revert --no-edit -n "$c" >/dev/null 2>&1 || { echo "cannot revert $c"; git -C /repo worktree remove --force "$W"; exit 3; })
[ -d "$W" ] || exit 3
for p in "$@"; do VERIF_REPO="$W" /verif/check $p >/tmp/rt.$$ 2>&1; rc=$?; echo "revert $c ($(git -C /repo log -1 --format=%s $c)): $p exit=$rc $(grep -m1 -E '^C[0-9]+:' /tmp/rt.$$ | cut -c1-200)"; done
git -C /repo worktree remove --force "$W"; rm -f /tmp/rt.$$
