#!/bin/bash
# dev helper: generate + verify one unit
cd /verif/vp && python3 gen.py $1 /tmp/t/$1.rs && cd /tmp/t && shift_u=$1 && shift && verus $shift_u.rs --triggers-mode silent --multiple-errors 5 --rlimit 40 "$@" 2>&1 | grep -vE '^warning: unused'
