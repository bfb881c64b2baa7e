#!/bin/sh
# Builds the exploration engine and runs its self-test. The checks build everything else from /repo themselves.
cd "$(dirname "$0")/.." && mkdir -p build out evidence && exec python3 -B selftest/run.py
