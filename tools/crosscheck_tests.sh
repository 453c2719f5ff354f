#!/bin/bash
# Run the repository's own test-suite on the instrumented library: the instrumentation must be
# the identity on concrete data.  Prints the failing tests, if any.
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
export HYPOTHESIS_STORAGE_DIRECTORY="$work/hyp"
cd /repo && PYTHONPATH=/verif/tools /opt/venv/bin/python -m pytest -q -p vf_pytest_plugin -p no:cacheprovider --timeout=120 --hypothesis-seed=0 -x --maxfail=30 tests "$@"
