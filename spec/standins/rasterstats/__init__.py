"""Stand-in: rasters described by the driver (vraster)."""
import numpy as np
import vraster
from _standin import unsupported, nparams
from shapely.geometry import Point, LineString, Zone, shape


def feats(vectors):
    if isinstance(vectors, (Point, LineString, Zone)):
        return [vectors]
    if isinstance(vectors, dict):
        return [shape(vectors.get('geometry', vectors))]
    out = []
    for v in vectors:
        if isinstance(v, (Point, LineString, Zone)):
            out.append(v)
        else:
            out.append(shape(v.get('geometry', v)))
    return out


def point_query(vectors, raster, band=1, layer=0, nodata=None, interpolate='bilinear'):
    if band != 1:
        unsupported('band')
    out = []
    for g in feats(vectors):
        if isinstance(g, Point):
            out.append(vraster.elevation(raster, g.x, g.y))
        elif isinstance(g, LineString):
            out.append([vraster.elevation(raster, c[0], c[1]) for c in g.coords])
        else:
            unsupported('point_query')
    return out


def gen_point_query(vectors, raster, band=1, layer=0, nodata=None, interpolate='bilinear'):
    for v in point_query(vectors, raster, band, layer, nodata, interpolate):
        yield v


def zonal_stats(vectors, raster, layer=0, band=1, nodata=None, stats=None, all_touched=False, add_stats=None, zone_func=None):
    if band != 1 or zone_func is not None:
        unsupported('zonal_stats')
    out = []
    for z in feats(vectors):
        if not isinstance(z, Zone):
            unsupported('zone')
        m = vraster.masked(raster, z, nodata, all_touched)
        c = m.compressed()
        fs = {}
        if len(c) == 0:
            fs = {'min': None, 'max': None, 'mean': None, 'count': 0}
        else:
            fs = {'min': min(c), 'max': max(c), 'mean': sum(c) / len(c), 'count': len(c)}
        if stats is not None:
            names = stats.split() if isinstance(stats, str) else list(stats)
            for s in names:
                if s.startswith('percentile_'):
                    fs[s] = np.percentile(c, float(s[11:]))
                elif s not in fs:
                    unsupported('stats')
        if add_stats is not None:
            for name, f in add_stats.items():
                k = nparams(f)
                if k == 1:
                    fs[name] = f(m)
                elif k == 2:
                    fs[name] = f(m, {})
                else:
                    unsupported('statistic')
        out.append(fs)
    return out


def gen_zonal_stats(vectors, raster, layer=0, band=1, nodata=None, stats=None, all_touched=False, add_stats=None, zone_func=None):
    for x in zonal_stats(vectors, raster, layer, band, nodata, stats, all_touched, add_stats, zone_func):
        yield x
