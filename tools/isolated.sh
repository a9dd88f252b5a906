#!/bin/bash
# Run a command with a scratch copy of /repo (and scratch output folders of
# /verif) in place of the real ones: tools/isolated.sh COMMAND...
top=$(mktemp -d /tmp/isolated.XXXXXX) || exit 2
mkdir "$top/evidence" "$top/replays" && cp -a /repo "$top/repo" || exit 2
mkdir -p /verif/replays /verif/evidence
TOP=$top unshare -m bash -c '
    mount --make-rprivate / &&
    mount --bind "$TOP/repo" /repo &&
    mount --bind "$TOP/evidence" /verif/evidence &&
    mount --bind "$TOP/replays" /verif/replays && exec "$@"' - "$@"
rc=$?
rm -rf "$top"
exit $rc
