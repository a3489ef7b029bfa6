"""Process set-up shared by every check: where trusspy, Hypothesis and the
scratch folders live.  Import this before anything else."""
import os
import sys
import tempfile
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

if SRC not in sys.path:
    sys.path.insert(0, SRC)
if VT_SITE not in sys.path:
    sys.path.append(VT_SITE)  # last: numpy & co. come from /opt/venv

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"  # bit-stable results, no oversubscription
os.environ["MPLBACKEND"] = "Agg"
if "VF_MPLDIR" not in os.environ:
    os.environ["VF_MPLDIR"] = tempfile.mkdtemp(prefix="vf_mpl_")
os.environ["MPLCONFIGDIR"] = os.environ["VF_MPLDIR"]

warnings.simplefilter("ignore")


def import_trusspy():
    import trusspy

    f = os.path.realpath(trusspy.__file__)
    if not f.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError("trusspy imported from %s, not from %s" % (f, SRC))
    return trusspy
