#!/usr/bin/env python3
"""Entry point of every check:  run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Re-executes itself under the interpreter neutralocean is installed for, with a
pinned environment, so that a run is a function of /repo's tree and VERIF_SEED.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

# Environment needed before numba is imported, per property.
EXTRA_ENV = {"C24": {"NUMBA_BOUNDSCHECK": "1"}}


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    prop = args[0]
    if os.environ.get("VERIF_REEXEC") != prop:
        env = {k: v for k, v in os.environ.items() if not k.startswith("NUMBA_")}
        env.update(
            VERIF_REEXEC=prop,
            PYTHONHASHSEED="0",
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONNOUSERSITE="1",
            NUMBA_NUM_THREADS="1",
            OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1",
            MKL_NUM_THREADS="1",
            PYTHONPATH=os.pathsep.join([HERE, os.path.join(HERE, "vendor"), os.environ.get("VERIF_REPO", "/repo")]),
        )
        env.update(EXTRA_ENV.get(prop, {}))
        os.execve(PY, [PY, os.path.join(HERE, "run.py")] + args, env)
    if prop == "--setup":
        import hypothesis
        import neutralocean.surface  # noqa: F401

        print("neutralocean imports; hypothesis", hypothesis.__version__)
        return 0
    from harness import core

    return core.main(prop, args[1:])


if __name__ == "__main__":
    sys.exit(main())
