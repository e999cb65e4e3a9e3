#!/opt/venv/bin/python
"""check.py <property> <quick|thorough>: decide one property.

exit 0: held on everything explored; exit 1 + VIOLATION line otherwise.
"""
import importlib
import os
import sys
import warnings

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter("ignore")

CHECKS = {
    "C01": ("registry",),
    "C02": ("registry",),
    "C03": ("registry",),
    "C04": ("kin",),
    "C05": ("kin",),
    "C06": ("kin",),
    "C07": ("kin",),
    "C08": ("kin",),
    "C09": ("kin",),
    "C10": ("kin",),
    "C11": ("kin",),
    "C12": ("kin",),
    "C13": ("kin", "alg"),
    "C14": ("vel",),
    "C15": ("vel",),
    "C16": ("vel",),
    "C17": ("alg",),
    "C18": ("alg",),
    "C19": ("alg",),
    "C20": ("registry", "kin"),
    "C21": ("opti",),
    "C22": ("ros",),
    "C23": ("pub",),
    "C24": ("bag",),
    "C25": ("plots",),
    "C26": ("play",),
    "C27": ("smooth",),
    "C28": ("request",),
}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    from harness.common import Report, MachineryError

    report = Report(prop, tier)
    try:
        from harness.common import load_library

        load_library()
        for mod in CHECKS[prop]:
            importlib.import_module("harness." + mod).check(report)
    except MachineryError as e:
        print("MACHINERY ERROR:", e, file=sys.stderr)
        return 2
    return report.finish()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
