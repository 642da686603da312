#!/usr/bin/env python3
"""check.py <property> [--replay file]: runs the monitors of one property against /repo (or $VERIF_REPO)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
if os.path.realpath(sys.prefix) != os.path.realpath(os.path.dirname(os.path.dirname(PY))) and os.environ.get('VK_PARENT') != '1':
    os.environ['VK_PARENT'] = '1'
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
from vk import core
sys.exit(core.main(sys.argv[1:]))
