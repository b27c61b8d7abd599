#!/bin/bash
# tools/plantns.sh NAME [CHECK...]: confirms one planted bug in a private mount namespace (neither /repo nor /verif changes).
n=$1; shift
b=$(mktemp -d /tmp/plantns.XXXXXX)
cp -a /repo "$b/repo"; cp -a /verif "$b/verif"
d=/verif/seeded/$n
id=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
unshare -Urm bash -c "mount --bind $b/repo /repo && mount --bind $b/verif /verif && exec bash $b/verif/tools/plantns_inner.sh $n $id $b $*" 
rc=$?
/bin/rm -rf "$b"
exit $rc
