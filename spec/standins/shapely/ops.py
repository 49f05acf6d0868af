from shapely.geometry import Point, LineString, Zone, pair
from _standin import unsupported


def transform(func, geom):
    if isinstance(geom, Zone):
        return geom.standin_map(func)
    if isinstance(geom, Point):
        return Point(pair(func(geom.x, geom.y)))
    if isinstance(geom, LineString):
        return LineString([pair(func(c[0], c[1])) for c in geom.coords])
    unsupported('transform')
