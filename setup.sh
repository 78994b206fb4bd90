#!/bin/bash
# builds the compiler driver and dumps the tree once (both are rebuilt by a check that does not find them)
cd "$(dirname "$0")" && python3 -B analyzer/build.py
