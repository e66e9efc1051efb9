#!/bin/bash
# m.sh CHECK FILE OLD NEW: one-line result of a mutation
cd /verif; timeout 600 python3 dev/mut.py "$@" 2>&1 | grep -v "^note" | cut -c1-220 | grep -v "^VIOL" | tail -2; echo ==
