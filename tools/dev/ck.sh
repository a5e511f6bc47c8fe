#!/bin/bash
# ck.sh ID [seed]: run check of /tmp/dv on /tmp/dr
VERIF_SEED=${2:-1} /tmp/devcheck.sh /tmp/dr $1 2>&1 | grep -v Warn | cut -c1-${W:-1200} | tail -${N:-8}
