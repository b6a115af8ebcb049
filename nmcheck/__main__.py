"""python3 -m nmcheck ID [--root /repo] [--tier quick|thorough] [-v]"""
import sys
import warnings

warnings.filterwarnings("ignore")
sys.setrecursionlimit(20000)

from .runner import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
