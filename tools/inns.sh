#!/bin/bash
# inns.sh CMD...: run CMD with a private copy of /repo mounted over /repo, so that the real one is left alone
T=$(mktemp -d /tmp/inns-XXXX); cp -a /repo "$T/repo"
unshare -Urm bash -c 'mount --bind "$0/repo" /repo && cd /verif && exec "$@"' "$T" "$@"; rc=$?
case "$T" in /tmp/inns-*) rm -rf "$T";; esac
exit $rc
