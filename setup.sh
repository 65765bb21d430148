#!/bin/bash
# Nothing to build: the checks import /repo's working tree directly.  This only
# verifies that the interpreter, Hypothesis and the code under test load.
set -e
cd "$(dirname "$0")"
exec /opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, 'harness')
import boot; boot.boot()
import hypothesis, numpy, scipy, attr
import dp_accounting
boot.check_origin(dp_accounting)
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'code', dp_accounting.__file__)
"
