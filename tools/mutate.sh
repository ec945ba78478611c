#!/bin/bash
# mutate.sh OUT.jsonl N SEED [file-filter]: mutation campaign on scratch copies (see mutate.py)
set -e
export MT=${MT:-/tmp/mt}; mkdir -p $MT
rsync -a --delete --exclude target --exclude .git /repo/ $MT/repo/
rsync -a --delete --exclude seeded --exclude .git /verif/ $MT/verif/
exec unshare -Urm bash -c 'mount --bind $MT/repo /repo; mount --bind $MT/verif /verif; python3 /verif/tools/mutate.py "$@"' x "$@"
