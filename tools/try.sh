#!/bin/bash
# try.sh SEED PROP...: runs checks against a scratch copy of /repo with the seeded change.
s=$1; shift
d=$(mktemp -d /tmp/try.XXXXXX)
cp -a /repo $d/repo && git -C $d/repo apply /verif/seeded/$s/patch.diff || exit 3
for p in "$@"; do /verif/bin/kvc -repo $d/repo -verif /verif check $p | grep -v KNOWN; done
rm -rf "$d"
