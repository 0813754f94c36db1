#!/opt/venv/bin/python
"""setup_cmd: nothing needs building; check that the committed reference data is readable."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import common  # noqa: E402

assert len(common.small_icudata()) > 100000
for n in ("tables.json.xz", "names.json.xz"):
    assert json.loads(common.read_data(n))
print("reference data readable")
