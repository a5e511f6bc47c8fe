export HOME=/root LANG=C.UTF-8 MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX=/nonexistent-pycache MPLCONFIGDIR=/tmp/mplconfig
