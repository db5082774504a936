"""check.py PROPERTY quick|thorough"""

import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import main  # noqa: E402

MODULES = {}
for p in ("A01", "A02", "A03", "A04", "G01", "G02", "G03", "G04",
          "T01", "T02", "B01", "E01", "V01", "W01", "P01", "F01"):
    MODULES[p] = "wave_check"

MODULES["S01"] = "storage_check"
MODULES["H01"] = "hicks_check"
MODULES["C01"] = "resample_check"
MODULES["M01"] = "pml_check"
MODULES["I01"] = "contract_check"
MODULES["R01"] = "equiv_check"
MODULES["P01"] = "equiv_check"
MODULES["W01"] = "equiv_check"
MODULES["V01"] = "equiv_check"
MODULES["D01"] = "fault_check"
MODULES["N01"] = "warn_check"
MODULES["K01"] = "helper_check"

if __name__ == "__main__":
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    sys.exit(main(prop, tier, importlib.import_module(MODULES[prop]).check))
