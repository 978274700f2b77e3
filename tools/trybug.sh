#!/bin/bash
# trybug.sh ID [notest] [nocheck] [PROP...]: a planted bug in a private mount namespace (a scratch copy bound over /repo and /verif):
# builds, stable tests, demo with and without, then the property's quick check.  Needs the right to mount.
ID=$1; shift
V=${V:-/verif}; R=${R:-/repo}   # where to take the trees from
SRC=$V/seeded/$ID
W=/tmp/trybug.$ID
[ -f $SRC/patch.diff ] || exit 2
rm -rf "/tmp/trybug.$ID"; mkdir -p $W
cp -a $R $W/repo; cp -a $V $W/verif; cp -a $SRC $W/seed
PROPS=""; NT=0; NC=0
for a in "$@"; do case $a in notest) NT=1;; nocheck) NC=1;; *) PROPS="$PROPS $a";; esac; done
[ -z "$PROPS" ] && PROPS=$(python3 -c "import json;print(json.load(open('$SRC/meta.json'))['property'])")
cat > $W/in.sh <<X
. /opt/vp/env.sh
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo
timeout 300 bash $W/seed/demo.sh > $W/demo0.log 2>&1; echo "demo clean: \$?"
git -C /repo apply $W/seed/patch.diff || exit 3
/opt/venv/bin/python -W ignore -c 'import compileall,sys; sys.exit(not all(compileall.compile_dir(d,quiet=1,force=True) for d in ("RMtools_1D","RMtools_3D","RMutils")))' || echo NOBUILD
timeout 300 bash $W/seed/demo.sh > $W/demo1.log 2>&1; echo "demo patched: \$?"
if [ $NT = 0 ]; then
 rm -rf /repo/tests/simdata
 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=$W/junit.xml > $W/test.log 2>&1
 /usr/bin/python3 /opt/vp/results.py $W/out.json junit:$W/junit.xml
 python3 - <<Y
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
def names(x):
    r=x.get('stable') or x.get('passed') or x.get('pass')
    return set(r)
print('tests broken:', sorted(names(b)-set(o.get('passed') or o.get('pass') or [])))
Y
fi
if [ $NC = 0 ]; then
cd /verif
export VERIF_SEED=1 VERIF_TIER=quick
for p in $PROPS; do timeout 900 /opt/venv/bin/python -m sim.engine \$p --tier quick > $W/check.\$p.log 2>&1; echo "check \$p: \$? \$(grep -c ^VIOLATION $W/check.\$p.log) \$(grep -m1 -i -A1 '^VIOL' $W/check.\$p.log | cut -c1-300 | tr '\n' ' ')"; done
fi
X
sed -i "s/\\\\\$p/\$p/g" $W/in.sh
unshare -m bash $W/in.sh
