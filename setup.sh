#!/bin/bash
# Builds the symbolic executor (the only thing checks share).
cd "$(dirname "$0")" && exec python3 check.py --engine
