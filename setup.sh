#!/bin/bash
# Builds the fact extractor and warms the dependency cache (checks redo this when it is absent).
cd "$(dirname "$0")" && exec python3 -c 'import sys; sys.path.insert(0, "analysis"); import extract; print(extract.facts())'
