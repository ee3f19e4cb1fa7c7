"""Entry point of every check: run.py <property> <tier> [options]."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

from vlib import core  # noqa: E402

if __name__ == "__main__":
    core.main(REPO, HERE)
