#!/bin/bash
# usage: check.sh <PROPERTY> [--thorough] | check.sh replay <file>
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 TQDM_DISABLE=1
export LC_ALL=C.UTF-8 TZ=UTC
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
export MPLCONFIGDIR="$scratch/mpl" VERIF_BUILD="$scratch/build"
mkdir -p "$MPLCONFIGDIR" "$VERIF_BUILD"
case "$1" in
  setup) "$py" -B -c "import numpy, scipy, pandas, matplotlib.pyplot" ;;
  replay|digest|one) "$py" -B "$here/sim/main.py" "$@" ;;
  *) "$py" -B "$here/sim/main.py" check "$@" ;;
esac
