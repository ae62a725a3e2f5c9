"""Replay one recorded counterexample without the explorer: replay.py FILE."""
import importlib
import json
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402

sys.path.insert(0, str(core.REPO_SRC))
data = json.loads(Path(sys.argv[1]).read_text())
module = importlib.import_module(data["module"])
if hasattr(module, "setup"):
    module.setup("quick")
obs, bad = core.run_guarded(module, data["case"])
print(json.dumps(bad or {"held": True}, indent=1, default=repr))
sys.exit(1 if bad else 0)
