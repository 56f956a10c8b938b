#!/bin/bash
# iso.sh DIR CMD...: run CMD with copies of /repo and /verif, kept in DIR, in their places
d=$1; shift
mkdir -p $d/repo $d/verif
[ -e $d/repo/.git ] || cp -a /repo/. $d/repo/
[ -e $d/verif/.git ] || cp -a /verif/. $d/verif/
exec unshare -Urm bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && cd /verif && exec "$@"' "$d" "$@"
