#!/bin/sh
# nothing to build: show that everything the checks need is there
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
exec /opt/venv/bin/python -W ignore -c "
from pbt import run
run.import_code_under_test()
run.import_hypothesis()
n = len(run.load_facets(None))
print('%d facets loaded' % n)
"
