#!/bin/bash
# Builds the extractor and the program database of the current tree.
set -e
cd "$(dirname "$0")"
bash build.sh
python3 -c "import sys; sys.path.insert(0,'rules'); import db; db.get()"
