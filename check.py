#!/usr/bin/env python3
"""Entry point: check.py <PROPERTY> [--tier quick|thorough]"""
import importlib
import os
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.dont_write_bytecode = True
from sa.report import run_check  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    mod = importlib.import_module(f"checks.{pid.lower()}")
    sys.exit(run_check(pid, mod.check, getattr(mod, "LEVEL", "other"), tier))


main()
