#!/bin/bash
# Offline setup: puts Hypothesis (from the local wheelhouse) into /verif/.deps,
# from where both interpreters the checks use can import it.
set -e
cd "$(dirname "$0")"
if [ ! -d .deps/hypothesis ]; then
    /opt/venv/bin/python -m pip install -q --no-index \
        --find-links /opt/veriftools/wheels --target "$PWD/.deps" hypothesis
fi
PYTHONPATH="$PWD/.deps" /opt/venv/bin/python -c "import hypothesis; print('hypothesis', hypothesis.__version__)"
PYTHONPATH="$PWD/.deps" /opt/venv-mpi/bin/python -c "import hypothesis, mpi4py; print('mpi venv ok')"
