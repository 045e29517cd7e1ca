#!/usr/bin/env python3
"""Decide one property.

    check.py <PID> [--tier quick|thorough] [--seed N] [--replay FILE]

Pipeline (see DESIGN.md):
  A  TLC checks the design models of the property exhaustively within small
     constants; some models also write stimuli (behaviours of the spec).
  B  the driver executes the stimuli (and seeded, larger ones) on the real
     code in /repo and records one ndjson event per public call.
  C  TLC validates every recorded event against the trace specification,
     which is the only oracle.

Exit 0: held.  Exit 1 + VIOLATION line: broken.  Anything else: machinery.
"""
import os
import sys

VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(VENV, [VENV, "-B"] + sys.argv)

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from harness.runner import main  # noqa: E402

main(HERE)
