"""check.py PROPERTY [quick|thorough] -- decide one property; exit 0 / 1 (VIOLATION) / 2 (machinery)."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import MachineryError, Run  # noqa: E402

MODULES = {"C06": ["container", "cases"], "C07": ["container"], "C08": ["container", "cases"], "C09": ["container", "cases"],
           "C10": ["container", "cases"], "C11": ["container", "cases"], "C12": ["container", "cases"], "C16": ["container"],
           "C18": ["container"], "C21": ["cases"], "C22": ["cases"], "C23": ["cases"], "C24": ["cases"], "C25": ["cases"], "C01": ["cases"], "C02": ["cases"], "C15": ["cases"], "C17": ["cases"], "C19": ["cases"], "C20": ["cases"], "C04": ["cases"], "C13": ["cases"], "C05": ["cases"], "C03": ["cases"], "C14": ["cases"]}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    run = Run(prop, tier, seed)
    try:
        assume = []
        for m in MODULES[prop]:
            assume += importlib.import_module("chk_" + m).check(run)
        return run.report(assumptions=assume)
    except MachineryError as e:
        print(f"MACHINERY ERROR in {prop}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
