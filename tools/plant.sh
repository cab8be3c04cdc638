#!/bin/bash
# plant.sh <id>: confirms a planted bug in a scratch copy of /repo and shows which checks see it.
# usage: plant.sh <id> [property ...]   (default: the property it breaks; NOTEST=1 skips the test suite)
here="$(cd "$(dirname "$0")/.." && pwd)"
id="$1"; shift
d="$here/seeded/$id"
w="/tmp/plant_$id"
rm -rf "$w"; cp -a /repo "$w" || exit 2
trap 'rm -rf "$w"' EXIT
export PYTHONDONTWRITEBYTECODE=1
(cd "$w" && bash "$d/demo.sh" > /tmp/plant_$id.clean 2>&1) || { echo "$id: demo fails on the unchanged tree"; tail -3 /tmp/plant_$id.clean; }
git -C "$w" apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
(cd "$w" && PYTHONPATH="$w/src" bash "$d/demo.sh" > /tmp/plant_$id.demo 2>&1) && echo "$id: demo passes with the change"
if [ -z "$NOTEST" ]; then
    (cd "$w" && PYTHONPATH="$w/src" MPLBACKEND=Agg /opt/venv/bin/python -m pytest tests notebooks -q -p no:cacheprovider -o addopts= -W ignore --disable-warnings -n ${JOBS:-6} --timeout=300 --nbmake --nbmake-kernel=python3 --ignore=notebooks/.ipynb_checkpoints --ignore=notebooks/cleanup --ignore=notebooks/students --ignore=notebooks/32_openclsim_routing.ipynb 2>&1 | tail -6 | grep -E "FAILED|ERROR|passed|failed" | sed "s/^/$id: /")
fi
props="${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}"
for p in $props; do
    OPENCLSIM_REPO="$w" bash "$here/check.sh" $p ${TIER:-quick} > /tmp/plant_$id.$p 2>&1
    echo "$id: $p exit $? $(grep -B1 -m1 VIOLATION /tmp/plant_$id.$p | head -1 | cut -c1-150)"
done
