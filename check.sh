#!/bin/bash
cd "$(dirname "$0")" && exec python3 -B analyzer/check.py "$@"
