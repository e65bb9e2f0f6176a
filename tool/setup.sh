#!/bin/bash
# Builds the AST exporter into .cache
cd "$(dirname "$0")/.." && python3-vt -c "
import sys
sys.path.insert(0, '.')
from vc import build
print(build.exporter())"
