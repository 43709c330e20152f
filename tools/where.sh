#!/bin/bash
# where.sh PLAN: call stack of the first failing allocation of a replay
S=${SIM:-/verif/build/sim/sim}
A=$($S --replay $1 --trace 2>&1 | grep "alloc fails at" | tail -1 | sed 's/.*at//')
addr2line -Cfpe $S $A | grep -v "^std::\|__gnu" | sed 's/ at .*\// at /' | cut -c1-150 | head -${2:-12}
