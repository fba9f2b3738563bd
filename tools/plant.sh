#!/bin/bash
# plant.sh <seeded id> [test-path-glob ...]: confirm a planted bug in a scratch copy.
#   demo passes without / fails with the patch, stable tests of the given files pass, the check catches it.
set -u
id=$1; shift
d=/verif/seeded/$id
prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=/tmp/sb/$id; rm -rf "/tmp/sb/$id"; mkdir -p /tmp/sb; cp -a /repo $w
cd $w && git apply $d/patch.diff || { echo "$id PATCH DOES NOT APPLY"; exit 1; }
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
(cd /repo && bash $d/demo.sh >/tmp/sb/$id.demo0 2>&1); a=$?
(cd $w && bash $d/demo.sh >/tmp/sb/$id.demo1 2>&1); b=$?
echo "$id demo clean=$a patched=$b: $(tail -1 /tmp/sb/$id.demo1)"
if [ $# -gt 0 ]; then
  for t in "$@"; do
    (cd $w; . /opt/vp/support/env.sh; export PYTHONPATH=$w:$PYTHONPATH
     JAXITE_SHARD=0/1 JAXITE_TRACE=/dev/null timeout 900 /opt/venv/bin/python -m pytest -q -p jaxite_ec_alias -p no:cacheprovider -x $t 2>&1 | tail -2 | sed "s|^|$id $t: |")
  done
fi
[ -n "${NOCHECK:-}" ] || (cd /verif && VERIF_REPO=$w /opt/venv/bin/python mc/run.py $prop --tier quick > /tmp/sb/$id.check 2>&1; echo "$id check $prop rc=$?"; grep -m2 -E "VIOLATION|ERROR" /tmp/sb/$id.check)
rm -rf "/tmp/sb/$id"
