#!/usr/bin/env python3
"""Builds the extension from /repo and imports everything once."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and sys.prefix != '/opt/venv':
    os.execv(PY, [PY, os.path.abspath(__file__)])
sys.path[0] = os.path.dirname(HERE)
from sim import env      # noqa: E402

env.setup()
print('ready')
