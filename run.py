"""
run.py ID                     run the check of one property (VERIF_SEED, VERIF_TIER from the environment)
run.py ID --replay FILE       run one saved failing case, without Hypothesis
run.py --selfcheck            import everything a check needs (setup_cmd; nothing is built)
"""
import argparse
import os
import pathlib
import sys

VENV_PYTHON = "/opt/venv/bin/python"

if __name__ == "__main__":
    here = pathlib.Path(__file__).resolve().parent
    if str(here) not in sys.path:
        sys.path.insert(0, str(here))
    # what fails may hold characters that the terminal cannot show
    for stream in (sys.stdout, sys.stderr):
        stream.reconfigure(errors="backslashreplace")
    from pbt import core

    parser = argparse.ArgumentParser()
    parser.add_argument("prop", nargs="?")
    parser.add_argument("--selfcheck", action="store_true")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    parser.add_argument("--worker", type=int)
    parser.add_argument("--out")
    parser.add_argument("--describe", action="store_true")
    parser.add_argument("--findings", action="store_true")
    parser.add_argument("--replay")
    args = parser.parse_args()
    if args.selfcheck:
        core.selfcheck()
    elif args.describe:
        core.describe(args.prop)
    elif args.findings:
        core.run_findings(args.prop)
    elif args.worker is not None:
        core.worker_main(args.prop, args.tier, args.seed, args.worker, args.out)
    elif args.replay:
        os.environ["PYTHONHASHSEED"] = "0"
        sys.exit(core.replay(args.prop, args.replay))
    else:
        sys.exit(core.run_property(args.prop, args.tier, args.seed))
