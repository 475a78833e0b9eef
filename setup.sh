#!/bin/bash
# Nothing to build: the code under test is interpreted from /repo; verify that it can be imported.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec env PYTHONPATH="$PWD:/repo" PYTHONDONTWRITEBYTECODE=1 NUMBA_DISABLE_JIT=1 MPLBACKEND=Agg \
  /opt/venv/bin/python -c "import vf.run, vf.sut; vf.sut.C(); print('setup ok')"
