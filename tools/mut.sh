#!/bin/bash
# mut.sh PATCH CHECK...: run checks against a scratch copy of /repo with PATCH applied (development aid)
D=$(mktemp -d /tmp/mut.XXXXXX); cp -a /repo/. $D/
git -C $D apply "$1" || { echo "does not apply"; /bin/rm -rf "$D"; exit 2; }
shift
for c in "$@"; do (cd /verif && VERIF_REPO=$D timeout 900 /opt/venv/bin/python check.py $c 2>&1 | cut -c1-300 | tail -6; echo "$c rc=${PIPESTATUS[0]}"); done
/bin/rm -rf "$D"
