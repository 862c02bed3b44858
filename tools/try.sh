#!/bin/bash
# try.sh ID PROP [run.py args]: the check PROP against seeded/ID applied in the scratch worktree /tmp/wt.
id=$1; shift
git -C /tmp/wt checkout -q -- . && git -C /tmp/wt checkout -q --detach "$(git -C /repo rev-parse HEAD)" && git -C /tmp/wt apply /verif/seeded/$id/patch.diff || exit 9
cd /verif && KMC_VERIF_REPO=/tmp/wt python3-vt run.py "$@"; echo "rc=$?"
git -C /tmp/wt checkout -q -- .
