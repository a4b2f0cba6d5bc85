#!/bin/bash
# seed.sh ID [notest] : validate /verif/seeded/ID in a scratch copy (apply, build, stable tests, demo both ways, checks)
ID=$1; S=/verif/seeded/$ID; W=/tmp/seed_$ID
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W"; cp -a /repo "$W"; cd "$W" || exit 1
( PYTHONPATH=$W/src bash $S/demo.sh >/tmp/demo_$ID.0 2>&1 ); d0=$?
git apply $S/patch.diff || { echo "$ID: patch does not apply"; rm -rf "$W"; exit 1; }
if git diff --name-only | grep -qE '\.(pyx|pxd)$'; then
  PATH=/opt/venv/bin:$PATH /opt/venv/bin/python setup.py build_ext --inplace -j 6 > /tmp/build_$ID.log 2>&1 || { echo "$ID: does not build"; tail -5 /tmp/build_$ID.log; exit 1; }
  find setup.py src -type f \( -name '*.pyx' -o -name '*.pxd' -o -name '*.pxi' -o -name setup.py \) -print0 | sort -z | xargs -0 sha256sum > build/.source-sums
fi
( PYTHONPATH=$W/src bash $S/demo.sh >/tmp/demo_$ID.1 2>&1 ); d1=$?
echo "$ID ($PROP): demo unchanged=$d0 patched=$d1"
if [ "$2" != notest ]; then
  ( cd test; HOME=/root PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=$W/src PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 \
    /opt/venv/bin/python -m pytest -q -p no:cacheprovider --rootdir=$W --timeout=300 -W ignore -n 8 --dist loadscope --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/junit_$ID.xml . > /tmp/test_$ID.log 2>&1 )
  python3 /opt/vp/results.py /tmp/res_$ID.json junit:/tmp/junit_$ID.xml >/dev/null
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/res_$ID.json'))
st=b.get('passed') or b.get('stable') or list(b.values())[0]
m=[t for t in st if t not in set(r['passed'])]
print('$ID: stable tests', 'OK' if not m else 'BROKEN %d %s'%(len(m), m[:3]))
P
fi
[ "$2" = nocheck ] || { cd /verif; VERIF_REPO=$W ./check $PROP 2>/dev/null | tail -4; echo "$ID: check rc=${PIPESTATUS[0]}"; }
rm -rf "$W"
