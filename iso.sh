#!/bin/bash
# iso.sh N cmd…: run cmd with private copies of /repo and /verif (slot N) mounted over the real ones
N=$1; shift
W=/tmp/iso$N
mkdir -p $W
[ -d $W/repo ] || cp -a /repo $W/repo
[ -d $W/verif ] || cp -a /verif $W/verif
git -C $W/repo checkout -q -- . ; git -C $W/repo fetch -q /repo HEAD && git -C $W/repo reset -q --hard FETCH_HEAD
rsync -a --delete --exclude .build --exclude evidence --exclude .git /verif/ $W/verif/ 2>/dev/null || { cd /verif && tar c --exclude=.build --exclude=evidence --exclude=.git . | tar x -C $W/verif; }
exec unshare -rm bash -c 'mount --bind '$W'/repo /repo && mount --bind '$W'/verif /verif && cd /verif && exec "$@"' _ "$@"
