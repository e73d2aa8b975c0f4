#!/bin/bash
# try_seed.sh ID [PROPERTY...]: confirm one planted change in a scratch copy of /repo:
# the demo passes without it and fails with it, the tests pass with it; then run the checks on it.
id=$1; shift
seed=/verif/seeded/$id
work=$(mktemp -d /tmp/seedXXXXXX)
trap 'rm -rf "$work"' EXIT
git -C /repo archive HEAD | tar -x -C "$work"
run_demo() { (cd "$work" && PYTHONPATH="$work/src" PYTHONDONTWRITEBYTECODE=1 timeout 300 bash "$seed/demo.sh" >"$work/demo.out" 2>&1); }
run_demo; a=$?
[ $a = 0 ] || { echo "$id: demo fails on the unchanged tree ($a)"; tail -5 "$work/demo.out"; }
(cd "$work" && git init -q . && git apply "$seed/patch.diff") || { echo "$id: patch does not apply"; exit 1; }
run_demo; b=$?
[ $b != 0 ] || echo "$id: demo passes with the patch"
if [ -z "$NO_TESTS" ]; then
  (cd "$work" && REDIS_VERSION=memory PYTHONPATH="$work/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 COVERAGE_FILE="$work/.cov" \
    /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:randomly -o addopts=--import-mode=importlib -n 6 --timeout=30 2>&1 | tail -4 | cut -c1-300)
fi
props=${*:-$(python3 -c "import json;print(json.load(open('$seed/meta.json'))['property'])")}
for p in $props; do
  (cd /verif && VERIF_REPO="$work" VERIF_SEED=1 VERIF_OUT="$work/out" timeout 900 python3-vt check.py "$p" >"$work/check.out" 2>&1); r=$?
  echo "$id: demo $a/$b check $p exit $r"; grep -E "VIOLATION|failed:|undecided:" "$work/check.out" | cut -c1-260 | head -${LINES_MAX:-6}
done
