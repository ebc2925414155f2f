"""Rasters in and out, written with GDAL and read back with GDAL or netCDF4
(multiplier files), independently of the code under test."""

import os

import numpy as np
from osgeo import gdal, osr

gdal.UseExceptions()

GT = {'f4': gdal.GDT_Float32, 'f8': gdal.GDT_Float64, 'i4': gdal.GDT_Int32,
      'i2': gdal.GDT_Int16, 'u1': gdal.GDT_Byte, 'u2': gdal.GDT_UInt16}
DIRS = ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw']
# row, column step towards where wind of that name comes from
STEP = {'n': (-1, 0), 'ne': (-1, 1), 'e': (0, 1), 'se': (1, 1),
        's': (1, 0), 'sw': (1, -1), 'w': (0, -1), 'nw': (-1, -1)}


def srs_wkt():
    s = osr.SpatialReference()
    s.ImportFromEPSG(4326)
    return s.ExportToWkt()


WKT = srs_wkt()


def write(path, arr, x0, y0, px, py=None, typ=None, nodata=None,
          driver=None, wkt=None):
    """Write arr (row 0 north) with its upper left corner at (x0, y0)."""
    arr = np.asarray(arr)
    py = px if py is None else py
    typ = typ or {'f': 'f4', 'i': 'i4', 'u': 'u2'}[arr.dtype.kind]
    if driver is None:
        driver = 'HFA' if path.endswith('.img') else 'GTiff'
    ds = gdal.GetDriverByName(driver).Create(
        path, arr.shape[1], arr.shape[0], 1, GT[typ])
    ds.SetProjection(wkt or WKT)
    ds.SetGeoTransform((x0, px, 0, y0, 0, -py))
    if nodata is not None:
        ds.GetRasterBand(1).SetNoDataValue(nodata)
    ds.GetRasterBand(1).WriteArray(arr)
    ds.FlushCache()
    ds = None
    return path


def read(path):
    ds = gdal.Open(path)
    a = ds.ReadAsArray()
    g = ds.GetGeoTransform()
    n = ds.RasterCount
    nd = [ds.GetRasterBand(i + 1).GetNoDataValue() for i in range(n)]
    de = [ds.GetRasterBand(i + 1).GetDescription() for i in range(n)]
    ty = [gdal.GetDataTypeName(ds.GetRasterBand(i + 1).DataType)
          for i in range(n)]
    out = {'a': a, 'gt': g, 'n': n, 'nodata': nd, 'desc': de, 'types': ty,
           'size': (ds.RasterYSize, ds.RasterXSize),
           'files': ds.GetFileList(), 'proj': ds.GetProjection()}
    ds = None
    return out


def read_nc(path, var=None):
    """lat, lon, values (NaN or masked = missing -> NaN), attributes."""
    import netCDF4
    with netCDF4.Dataset(path) as d:
        d.set_auto_mask(False)
        names = [v for v in d.variables if v not in ('lat', 'lon', 'crs')]
        v = d.variables[var or names[0]]
        vals = np.array(v[:])
        return {'lat': np.array(d.variables['lat'][:]),
                'lon': np.array(d.variables['lon'][:]),
                'v': vals, 'names': names, 'dims': v.dimensions,
                'dtype': v.dtype,
                'vatts': {k: v.getncattr(k) for k in v.ncattrs()},
                'gatts': {k: d.getncattr(k) for k in d.ncattrs()},
                'vars': list(d.variables)}


def tree(path):
    """{relative name: (size, md5)} of every file under path."""
    import hashlib
    out = {}
    for root, dirs, files in os.walk(path):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, path)] = hashlib.md5(
                    fh.read()).hexdigest()
    return out


def write_nc(path, var, arr, x0, y0, px, py=None, nodata=-9999, fmt=None):
    """A multiplier file as the programs write it, without them. NaN stays
    NaN."""
    import netCDF4
    py = px if py is None else py
    rows, cols = arr.shape
    with netCDF4.Dataset(path, 'w', format=fmt or 'NETCDF3_CLASSIC') as d:
        d.createDimension('lat', rows)
        d.createDimension('lon', cols)
        la = d.createVariable('lat', 'd', ('lat',))
        la.units, la.standard_name = 'degrees_north', 'latitude'
        la[:] = y0 - (np.arange(rows) + .5) * py
        lo = d.createVariable('lon', 'd', ('lon',))
        lo.units, lo.standard_name = 'degrees_east', 'longitude'
        lo[:] = x0 + (np.arange(cols) + .5) * px
        v = d.createVariable(var, 'f', ('lat', 'lon'), fill_value=nodata)
        v[:] = arr
        v.long_name = var + ' multiplier'
        d.Conventions = 'CF-1.6'
