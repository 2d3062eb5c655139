#!/bin/bash
# tryseed.sh ID [check.sh args]: run the property's quick check on a copy with the planted bug
d=/verif/seeded/$1; shift
p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/repo"; git -C "$t/repo" apply "$d/patch.diff" || exit 3
PVLIB_REPO=$t/repo PVSYM_EVIDENCE=$t/ev bash /verif/check.sh "$p" quick "$@"; echo "$d $p rc=$?"
