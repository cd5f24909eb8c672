#!/bin/bash
# development: all checks in parallel
cd /verif
for c in ${@:-$(grep -ho '^//@ C[0-9][0-9]' spec/*.cc | sort -u | cut -c5-)}; do (W=170 N=6 ./t.sh $c | tail -8) & while [ $(jobs -r | wc -l) -ge 7 ]; do sleep 0.2; done; done; wait
