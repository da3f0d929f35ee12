#!/bin/bash
# inns.sh PATCH|none 'command'  - run a command with private copies of /repo (patched) and /verif
# bound over the real ones in a mount namespace of its own; nothing outside is touched.
p=$1; shift
w=$(mktemp -d /tmp/inns.XXXXXX)
cp -a /repo "$w/repo"; cp -a /verif "$w/verif"
if [ "$p" != none ]; then git -C "$w/repo" apply "$p" || { echo "patch does not apply"; rm -rf "${w:?}"; exit 9; }; fi
unshare -Urm bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /verif && $*"
rc=$?
rm -rf "${w:?}"
exit $rc
