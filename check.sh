#!/bin/bash
# check.sh <property> [quick|thorough]   |   check.sh replay <file>
. /opt/vp/env.sh
export PYTHONPATH="$(cd "$(dirname "$0")" && pwd)" PYTHONWARNINGS=ignore
cd / || exit 2
exec python -m mc.main "$@"
