#!/bin/bash
# Nothing to build: the checks import /repo's Python code directly. Verify
# that the interpreter and the libraries are there.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence" "$here/replays"
exec /opt/venv/bin/python -c "import numpy, netCDF4, osgeo.gdal, shapely, fiona, scipy"
