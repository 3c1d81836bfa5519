#!/bin/bash
# tests_in.sh REPO OUT.json: the repository's tests, run in a copy
R=$1; OUT=$2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0 PYTHONPATH=$R:/opt/vp/support PYTEST_DISABLE_PLUGIN_AUTOLOAD=1
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cd $R/tests || exit 1
/opt/venv/bin/python -m pytest -q -p vp_seed -p pytest_timeout -p no:cacheprovider --tb=short --rootdir=$R --timeout=180 --session-timeout=780 --continue-on-collection-errors \
  -o "python_files=test_*.py *_test.py tests_*.py" -o junit_family=xunit2 --junitxml="$W/j.xml" .
python3 /opt/vp/results.py "$OUT" junit:"$W/j.xml"
