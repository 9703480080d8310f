#!/opt/venv/bin/python
"""run.py ID [--tier quick|thorough] [--replay FILE] [--seed N] [--only GROUP]"""
import os
import sys

ENV = {
    "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "NUMEXPR_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1", "HDF5_USE_FILE_LOCKING": os.environ.get("HDF5_USE_FILE_LOCKING", "TRUE"),
    "PYTHONWARNINGS": "ignore",
}
PY = "/opt/venv/bin/python"


def main():
    if os.environ.get("VERIF_ENV") != "1":
        env = dict(os.environ)
        env.update(ENV)
        env["VERIF_ENV"] = "1"
        env.pop("PYTHONPATH", None)
        os.execve(PY, [PY, "-s", os.path.abspath(__file__)] + sys.argv[1:], env)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    import argparse
    import importlib
    import logging
    import warnings

    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only check that the code can be imported")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    args = ap.parse_args()
    warnings.simplefilter("ignore")
    from lib import vp

    # The code under test is what is in the working tree of /repo
    sys.path.insert(0, os.path.join(vp.REPO, "src"))
    import spectrocrunch

    if not os.path.abspath(spectrocrunch.__file__).startswith(os.path.abspath(vp.REPO) + os.sep):
        print("ERROR: not the code in", vp.REPO, spectrocrunch.__file__)
        return 3
    if args.setup:
        print("spectrocrunch from", spectrocrunch.__file__)
        return 0
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module("checks." + args.id.lower())
    return vp.run_check(mod, args.tier, args.seed, replay=args.replay, only=args.only)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
