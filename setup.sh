#!/bin/sh
# builds the extractor (clang LibTooling) from the committed source
cd "$(dirname "$0")" && exec python3 -c "
import sys
sys.path.insert(0, '.')
from sa import ir
ir.build_tool()
print('extractor ready')"
