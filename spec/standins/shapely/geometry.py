"""Stand-in for the planar geometry used by the scripts (interpreted by the analysis, never executed)."""
import math
from _standin import unsupported


class Point:
    geom_type = 'Point'

    def __init__(self, *a):
        c = a[0] if len(a) == 1 else a
        if isinstance(c, Point):
            c = (c.x, c.y)
        self.x = c[0]
        self.y = c[1]
        self.coords = [(c[0], c[1])]

    def buffer(self, distance, quad_segs=16, cap_style='round', join_style='round', resolution=None):
        if resolution is not None:
            quad_segs = resolution
        if quad_segs < 8 and quad_segs != 1:
            unsupported('coarse circle')
        form = 'circle'
        if cap_style in ('square', 3):
            form = 'square'
        elif cap_style not in ('round', 1):
            unsupported('cap style')
        elif quad_segs == 1:
            form = 'diamond'
        return Zone((self.x, self.y), (self.x + distance, self.y), (self.x, self.y + distance), form)


class Zone:
    """image of a circle: where its centre, its eastmost and its northmost point lie"""
    geom_type = 'Polygon'

    def __init__(self, c, e, n, form='circle'):
        self.form = form
        self.c = c
        self.e = e
        self.n = n

    def standin_map(self, f):
        return Zone(pair(f(self.c[0], self.c[1])), pair(f(self.e[0], self.e[1])), pair(f(self.n[0], self.n[1])), self.form)


def pair(v):
    return (v[0], v[1])


class LineString:
    geom_type = 'LineString'

    def __init__(self, coords):
        out = []
        for c in coords:
            if isinstance(c, Point):
                out.append((c.x, c.y))
            else:
                out.append((c[0], c[1]))
        self.coords = out
        if len(out) < 2:
            unsupported('line of fewer than two points')

    @property
    def length(self):
        s = 0
        for i in range(len(self.coords) - 1):
            s = s + seg(self.coords[i], self.coords[i + 1])
        return s

    def interpolate(self, distance, normalized=False):
        if normalized:
            distance = distance * self.length
        if distance < 0:
            unsupported('interpolation before the start')
        last = len(self.coords) - 2
        for i in range(last):
            s = seg(self.coords[i], self.coords[i + 1])
            if distance <= s:
                return along(self.coords[i], self.coords[i + 1], distance / s)
            distance = distance - s
        s = seg(self.coords[last], self.coords[last + 1])
        if distance >= s:
            return Point(self.coords[last + 1])
        return along(self.coords[last], self.coords[last + 1], distance / s)


def seg(a, b):
    return math.sqrt((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2)


def along(a, b, t):
    return Point(a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t)


def mapping(g):
    if isinstance(g, Point):
        return {'type': 'Point', 'coordinates': (g.x, g.y)}
    if isinstance(g, LineString):
        return {'type': 'LineString', 'coordinates': tuple(g.coords)}
    unsupported('mapping')


def shape(d):
    if isinstance(d, (Point, LineString, Zone)):
        return d
    if d['type'] == 'Point':
        return Point(d['coordinates'])
    if d['type'] == 'LineString':
        return LineString(d['coordinates'])
    unsupported('shape')
