#!/bin/sh
# Apply each planted bug to a scratch clone of /repo and run the check of its
# property there. Usage: tools/seeds.sh [id ...]
here=$(cd "$(dirname "$0")/.." && pwd)
cd "$here" || exit 9
[ $# -gt 0 ] || set -- $(ls seeded)
for b; do
    d=$(mktemp -d /tmp/wmv-seed.XXXXXX)
    p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
    git clone -q /repo "$d/repo"
    if git -C "$d/repo" apply "$here/seeded/$b/patch.diff"; then
        WMV_REPO=$d/repo ./run_check $p ${TIER:-quick} > "$d/out" 2>&1
        rc=$?
        echo "$b $p rc=$rc $(grep -c '^VIOLATION' "$d/out") $(grep -A1 '^case ' "$d/out" | sed -n 2p | cut -c1-110)"
    else
        echo "$b $p does not apply"
    fi
    rm -rf "$d"
done
