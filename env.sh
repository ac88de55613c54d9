# Environment of every check: the one the repository's own tests use, plus Hypothesis.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg OPENMDAO_REPORTS=0
export PYTHONPATH="${OCV_REPO:+$OCV_REPO:}$here/.deps:$here" MPLCONFIGDIR="$here/.mpl"
# Hypothesis is not in the project's environment: take it from the offline wheelhouse.
if ! /opt/venv/bin/python -c 'import hypothesis' >/dev/null 2>&1; then
  /opt/venv/bin/python -m pip install -q --no-index --find-links /opt/veriftools/wheels --target "$here/.deps.$$" hypothesis >&2 || return 2
  mv -T "$here/.deps.$$" "$here/.deps" 2>/dev/null || { /opt/venv/bin/python -c 'import hypothesis' 2>/dev/null || export PYTHONPATH="${OCV_REPO:+$OCV_REPO:}$here/.deps.$$:$here"; }
fi
