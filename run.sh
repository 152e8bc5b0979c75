#!/bin/bash
# run.sh PROPERTY [--replay FILE] : one check (tier from VERIF_TIER, seed from VERIF_SEED)
cd "$(dirname "$0")" || exit 2
[ -d .deps/hypothesis ] || bash setup.sh >&2 || exit 2
. ./env.sh
exec /opt/venv/bin/python -m harness.main "$@"
