#!/bin/bash
# bring committed work of /tmp/dv and /tmp/dr into /verif and /repo (never while vcheck runs)
pgrep -f /opt/vcheck >/dev/null && { echo "vcheck runs"; exit 1; }
git -C /repo pull -q --ff-only /tmp/dr HEAD && git -C /verif pull -q --ff-only /tmp/dv HEAD
git -C /repo status --short | head -3; git -C /verif status --short | head -3
git -C /repo log --oneline | head -1; git -C /verif log --oneline | head -1
