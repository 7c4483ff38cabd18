#!/bin/bash
# Nothing is compiled: make sure that the library under /repo can be imported and that the models count right.
set -e
cd "$(dirname "$0")"
bash /opt/vp/build.sh >/dev/null
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p evidence
cd / && PYTHONPATH=/verif python -m mc.selftest
