#!/bin/bash
# development: run one check verbosely, show what is not equal
cd /verif && VERIF_LOG=${L:-2} python3 sa/check.py "$@" 2>&1 | cut -c1-${W:-260} | grep -v "^equal\|^  *File\|^Traceback\|^    [a-z]\|^  *^^" | head -${N:-40}
