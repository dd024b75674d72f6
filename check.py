#!/usr/bin/env python3
"""check.py <property> [--replay FILE] [--seed N] [--runs N]: see DESIGN.md"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from dsim.runner import main  # noqa

if sys.argv[1:] == ["--setup"]:
    from dsim.runner import setup
    sys.exit(setup())
sys.exit(main(sys.argv[1:]))
