#!/bin/sh
# Nothing is compiled: shows that the framework and the code under test can be imported.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import svdmon.harness, svdmon.judge, svdmon.gen; print('svdmon ready')"
