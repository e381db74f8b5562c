#!/bin/bash
# Builds the MIR dump driver and a first dump of /repo (every check does this again when it is missing).
cd "$(dirname "$0")" || exit 1
exec python3 -c "
import sys; sys.path.insert(0, 'engine')
from dump import Dump
print(len(Dump().fns), 'functions')"
