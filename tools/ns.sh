#!/bin/bash
# ns.sh COMMAND...: run a command with private copies of /repo and /verif mounted
# over them (development helper: planted bugs never touch the real trees).
# The copies are /tmp/sr/repo and /tmp/sr/verif, brought up to date first.
mkdir -p /tmp/sr
exec 9> /tmp/sr/lock; flock 9
[ -d /tmp/sr/repo ] || cp -a /repo /tmp/sr/
git -C /tmp/sr/repo checkout -q -- .
h=$(git -C /repo rev-parse HEAD)
[ "$(git -C /tmp/sr/repo rev-parse HEAD)" = "$h" ] || { git -C /tmp/sr/repo fetch -q /repo HEAD && git -C /tmp/sr/repo reset -q --hard "$h"; }
mkdir -p /tmp/sr/verif/seeded
rsync -a --delete --exclude /build --exclude /.git --exclude /seeded --exclude /evidence /verif/ /tmp/sr/verif/
exec unshare -m bash -c 'mount --bind /verif/seeded /tmp/sr/verif/seeded; mount --bind /tmp/sr/repo /repo; mount --bind /tmp/sr/verif /verif; cd /verif; exec "$@"' -- "$@"
