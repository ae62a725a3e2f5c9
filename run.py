"""run.py <check module, e.g. c01> [--thorough]"""
import os
import sys
from pathlib import Path

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])
sys.path.insert(0, str(Path(__file__).resolve().parent))
from mc.core import main  # noqa: E402

sys.exit(main(f"checks.{sys.argv[1].lower()}"))
