#!/bin/bash
# iso.sh COMMAND...: runs the command in a namespace in which /repo and /verif are copies of their committed states
w=$(mktemp -d /tmp/iso.XXXX)
git clone -q /repo $w/repo && cp -a /verif $w/verif && git -C $w/verif checkout -q -- . && git -C $w/verif clean -fdq
# build products of the original may belong to a patched tree
rm -rf "$w/verif/harness/target/debug/incremental"
unshare -Urm bash -c 'mount --bind "$1/repo" /repo && mount --bind "$1/verif" /verif && cd /verif && shift && exec "$@"' _ "$w" "$@"
rc=$?
rm -rf "$w"
exit $rc
