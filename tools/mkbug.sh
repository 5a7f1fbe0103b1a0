#!/bin/bash
# tools/mkbug.sh ID PROPERTY "needs" "breaks" : turn /repo's uncommitted edit into seeded/ID (patch.diff, meta.json) and undo it
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
git -C /repo checkout -- .
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
cat > $d/demo.sh <<'D'
#!/bin/bash
# run in /repo after the build: 0 = behaves, nonzero = broken
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -g -w -D_GNU_SOURCE -DHAVE_PTHREADS -DHAVE_GNUTLS -I$repo/src -I$repo/_build/src -I$here -o $t/demo $here/demo.c $repo/_build/src/onion/libonion_static.a \
 -lxml2 -lpam -lgcrypt -lgnutls -lpthread -lsqlite3 -lhiredis -lsystemd -lrt -lm -ldl || exit 3
cd $t && ONION_LOG="noinfo nodebug noerror nocolor" timeout 100 $t/demo >$t/out 2>&1; r=$?
tail -5 $t/out; exit $r
D
chmod +x $d/demo.sh
