"""Entry point of every check:  python run.py C01 [--replay FILE] [--family NAME]

Tier and seed come from VERIF_TIER (quick|thorough) and VERIF_SEED.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: harness error.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("XRDMON_REPO", "/repo")
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

if __name__ == "__main__":
    from xrdmon import core

    sys.exit(core.main(sys.argv[1:], HERE, REPO))
