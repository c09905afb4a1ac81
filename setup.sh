#!/bin/bash
# Nothing to build: the checks are Python and import /repo's working tree. Verify that the tools are there.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
mkdir -p evidence replays
exec "$PY" -W ignore -c "import hypothesis, numpy, scipy, pbt.core; print('hypothesis', hypothesis.__version__)"
