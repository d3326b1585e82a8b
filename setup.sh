#!/bin/sh
# builds the MIR extractor and warms the cache for the current tree
cd "$(dirname "$0")" || exit 2
exec env PYTHONDONTWRITEBYTECODE=1 python3 -c '
import sys; sys.path.insert(0, "sa")
import extract
extract.extract(); extract.extract(serde=True)'
