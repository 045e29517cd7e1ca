#!/bin/sh
# Nothing to compile: the specifications are interpreted by TLC and the
# drivers import /repo. Verify that the toolchain is present.
set -e
cd "$(dirname "$0")/.."
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c "import torch, ml4gw"
mkdir -p evidence
