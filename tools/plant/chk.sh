#!/bin/bash
# chk.sh BUG PROP [seeds...]: run PROP's check against seeded bug
git -C /repo apply /verif/seeded/$1/patch.diff || exit 3
for s in ${3:-1}; do (cd /verif && VERIF_SEED=$s timeout 900 bash run.sh $2 > /tmp/plant_out.txt 2>&1; echo "$1 $2 seed=$s rc=$?"; grep -m1 '^---' /tmp/plant_out.txt | cut -c1-200; grep -m1 INCONC /tmp/plant_out.txt); done
git -C /repo checkout -q -- .
