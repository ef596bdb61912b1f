#!/opt/venv/bin/python
"""usage: check.py <property id> [--replay FILE] [--tier quick|thorough] [--seed N] [--only SCENARIO]"""
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("PYTHONPATH") or os.environ.get("PYTHONOPTIMIZE"):
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    env.pop("PYTHONOPTIMIZE", None)
    os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mon.core import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
