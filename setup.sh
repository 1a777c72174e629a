#!/bin/bash
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
/usr/bin/python3 -c 'import sys; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages"); import hypothesis, numpy; from osgeo import gdal' || exit 1
exec /usr/bin/python3 lib/build.py
