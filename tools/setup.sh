#!/bin/bash
# Builds the probe once, so that a broken toolchain shows up before the checks.
cd "$(dirname "$0")/.." && python3-vt -c "
import sys; sys.path.insert(0, 'checks'); import lib; P = lib.Probe(); print(len(P.funs), 'functions,', len(P.structs), 'structures')"
