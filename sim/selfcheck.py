"""Setup: nothing to build; check that the installation can run the simulator."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import zygote  # noqa: E402

zygote.prepare()
import tempfile  # noqa: E402

with tempfile.TemporaryDirectory() as scratch:
    job = {"id": "a", "kind": "compile", "file": "a.mau", "visitors": ["html"]}
    result = zygote.fork_execute(
        {"files": {"a.mau": "= Title\n\nText\n"}, "phases": [{"jobs": [job]}]}, scratch
    )
    assert result["jobs"]["a"]["status"] == "ok", result
    assert result["steps"]["a"] > 100, result["steps"]
print("simulator ready")
