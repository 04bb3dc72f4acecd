import os
import sys
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
import warnings  # noqa: E402
warnings.simplefilter("ignore")
from pv.core import main  # noqa: E402
sys.exit(main())
