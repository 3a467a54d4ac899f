#!/usr/bin/env python3
"""Entry point of every check:  run.py <PID> [--tier quick|thorough]

Re-executes the harness of the property with the interpreter the repository is
installed in and a fixed, offline environment.  Exit 0: the property held on
everything explored; exit 1 + "VIOLATION property=<id> replay=<path>": broken;
exit 2: the machinery itself failed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    args = sys.argv[1:]
    if not args:
        sys.exit("usage: run.py PID [--tier quick|thorough]")
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    env = dict(os.environ)
    env.update(HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1",
               OMPI_MCA_ess_singleton_isolated="1",
               PYTHON_JULIAPKG_OFFLINE="yes", VERIF_TIER=tier,
               PYTHONUNBUFFERED="1")
    env.setdefault("VERIF_SEED", "1")
    repo = env.get("VERIF_REPO", "/repo")
    env["VERIF_REPO"] = repo
    env["PYTHONPATH"] = repo + ":" + os.path.join(HERE, "harness")
    py = "/opt/venv/bin/python"
    os.chdir(HERE)
    os.execve(py, [py, "-W", "ignore", os.path.join(HERE, "harness", pid.lower() + ".py")]
              + args[1:], env)


main()
