#!/bin/bash
# try.sh SEED [PROP...]: run checks against a worktree with the planted bug applied
S=$1; shift
W=/tmp/wtry.$$; git -C /repo worktree add -q --detach $W HEAD && git -C $W apply /verif/seeded/$S/patch.diff || exit 2
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('/verif/seeded/$S/meta.json'))['property'])")
for p in "$@"; do VERIF_REPO=$W VERIF_SEED=1 python3 /verif/check.py $p 2>&1 | grep -v '^note' | sed "s/^/$S: /" | cut -c1-260; done
git -C /repo worktree remove --force $W
