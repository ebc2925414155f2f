#!/bin/bash
# For each "fixed" entry of known_findings.txt: undo the repair in a scratch
# copy and show whether the check of its property reports it again.
# tools/reverts.sh [COMMIT...]
here=$(cd "$(dirname "$0")/.." && pwd)
grep '^fixed:' "$here/known_findings.txt" | while read -r _ p c what; do
    [ $# -gt 0 ] && [[ " $* " != *" $c "* ]] && continue
    d=$(mktemp -d /tmp/revert.XXXXXX)
    git clone -q /repo "$d/repo" 2>/dev/null
    cd "$d/repo" || exit 1
    git config user.email a@b; git config user.name x
    if ! git revert -n "$c" >/dev/null 2>&1; then
        echo "$p $c CONFLICT $what"
    else
        out=$(cd "$here" && WMV_REPO=$d/repo ./run_check "${p#property=}" quick 2>&1)
        rc=$?
        echo "$p $c exit=$rc $(echo "$out" | grep -c VIOLATION) $what"
    fi
    cd /tmp && rm -rf "$d"
done
