#!/bin/bash
# builds the AST extractor (everything else is built per run from /repo's current tree)
cd "$(dirname "$0")"
mkdir -p build evidence
python3-vt -c "import sys; sys.path.insert(0,'.'); from dwv import frontend as f; print(f.extractor())"
