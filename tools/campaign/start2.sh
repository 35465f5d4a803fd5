#!/bin/bash
# start.sh N
n=$1; d=/tmp/mut/w$n; mkdir -p $d
rsync -a --delete /repo/ $d/repo/; rsync -a --delete --exclude .git /verif/ $d/verif/
exec unshare -m bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && cd / && exec python3 /tmp/mut/worker2.py $n > $d/log 2>&1"
