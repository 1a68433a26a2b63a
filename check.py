#!/opt/venv/bin/python
"""check.py <property id>: decides one property (see DESIGN.md). Tier and seed come from VERIF_TIER / VERIF_SEED."""
import importlib
import json
import logging
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")

FAMILIES = {
    "requests": ["C10", "C11", "C12", "C13", "C14"],
    "deployment": ["C05", "C06", "C07", "C08", "C09", "C11"],
    "calls": ["C12", "C16"],
    "exports": ["C17", "C18", "C23", "C29"],
    "mocks": ["C28"],
    "registry": ["C22"],
    "config": ["C19"],
    "dynamic": ["C20"],
    "types": ["C21"],
    "automation": ["C24"],
    "settings": ["C25"], "workspace": ["C26"], "launcher": ["C30"],
    "provider": ["C15"],
    "values": ["C01", "C02", "C03", "C04", "C05"],
}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if os.environ.get("PYTHONHASHSEED") is None:  # what is explored depends on the seed alone
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-B", os.path.abspath(__file__)] + sys.argv[1:])
    logging.disable(logging.CRITICAL)
    from vh.report import Report

    rep = Report(prop, tier, seed)
    for fam in [f for f, ps in FAMILIES.items() if prop in ps]:
        importlib.import_module("vh.checks." + fam).run(rep)
    return rep.finish()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
