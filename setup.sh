#!/bin/bash
# nothing to build: the checks import /repo's working tree directly; this only makes sure that the pieces are there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -W ignore -c 'import numpy, scipy, gsw, pymatreader, matplotlib, shapefile' || exit 1
/opt/venv/bin/python -m json.tool MANIFEST.json >/dev/null
