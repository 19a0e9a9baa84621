import argparse, importlib, os, sys
os.environ.setdefault("OMP_NUM_THREADS", "1")
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
ap = argparse.ArgumentParser()
ap.add_argument("pid")
ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--replay")
ap.add_argument("--nproc", type=int)
ap.add_argument("--only", nargs="*")
a = ap.parse_args()
seed = int(os.environ.get("VERIF_SEED", "1"))
if a.tier == "quick":
    os.environ.setdefault("TORCH_COMPILE_DISABLE", "1")
import torch
torch.set_num_threads(1)
from vmon import core
mod = importlib.import_module("checks." + a.pid.lower())
rc = core.main(a.pid, mod, a.tier, seed, a.replay, a.nproc, a.only)
sys.stdout.flush()
os._exit(rc)
