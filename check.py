#!/usr/bin/env python3
"""Entry point: check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] ...

Pins the environment (hash seed, offline, single-threaded math, disk seam) and runs
the driver in the repository's interpreter."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"

if os.environ.get("VERIF_CHILD") != "1":
    from sim import shim

    env = dict(os.environ)
    env.update(
        VERIF_CHILD="1",
        PYTHONHASHSEED=env.get("VERIF_HASHSEED", "0"),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONNOUSERSITE="1",
        HF_HUB_OFFLINE="1",
        TRANSFORMERS_OFFLINE="1",
        HF_DATASETS_OFFLINE="1",
        HF_HUB_DISABLE_TELEMETRY="1",
        CUDA_VISIBLE_DEVICES="",
        TOKENIZERS_PARALLELISM="false",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        TQDM_DISABLE="1",
        LD_PRELOAD=shim.build(),
        TRANSFORMERS_VERBOSITY="error",
        PYTHONWARNINGS="ignore",
    )
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

from sim.driver import main  # noqa: E402

main()
