#!/bin/bash
# run.sh <property> <quick|thorough>: decide one property against /repo's working tree
cd "$(dirname "$(readlink -f "$0")")" || exit 3
MPL=$(mktemp -d /tmp/verif_mpl.XXXXXX)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=$MPL
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_TIER=${2:-quick} VERIF_SEED=${VERIF_SEED:-1}
/opt/venv/bin/python -W ignore -m harness.main "$1" "${2:-quick}"
rc=$?
case "$MPL" in /tmp/verif_mpl.*) rm -rf "$MPL";; esac
exit $rc
