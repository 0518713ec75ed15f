#!/bin/bash
# Sanity of the offline toolchain: the specifications are plain text and need no build.
cd "$(dirname "$0")" || exit 1
java -version >/dev/null 2>&1 || exit 1
test -f /opt/veriftools/tla/tla2tools.jar || exit 1
/opt/venv/bin/python -c "import numpy, torch" || exit 1
mkdir -p evidence/replay
