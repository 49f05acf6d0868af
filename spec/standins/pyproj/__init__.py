"""Stand-in: some distance on the globe and some local projection around a point; their exact arithmetic is not modelled."""
import math
from _standin import unsupported, crs


class Geod:
    def __init__(self, initstring=None, ellps=None, a=None, b=None, f=None):
        if initstring is not None or a is not None or ellps is None:
            unsupported('Geod')
        self.k = 1.0 if ellps == 'WGS84' else 1.07

    def hop(self, lon1, lat1, lon2, lat2):
        return self.k * 1e5 * math.sqrt((lon2 - lon1) ** 2 + 0.5 * (lat2 - lat1) ** 2)

    def line_length(self, lons, lats):
        s = 0
        for i in range(len(lons) - 1):
            s = s + self.hop(lons[i], lats[i], lons[i + 1], lats[i + 1])
        return s

    def geometry_length(self, geometry):
        cs = geometry.coords
        return self.line_length([c[0] for c in cs], [c[1] for c in cs])

    def inv(self, lons1, lats1, lons2, lats2):
        return (None, None, self.hop(lons1, lats1, lons2, lats2))


M = 111320.0


class Transformer:
    def __init__(self, a, b, xy):
        self.a = crs(a)
        self.b = crs(b)
        self.xy = xy

    @staticmethod
    def from_crs(crs_from, crs_to, always_xy=False):
        return Transformer(crs_from, crs_to, always_xy)

    def transform(self, xx, yy):
        lonlat = None
        if self.a['kind'] == 'aeqd':
            lonlat = (self.a['lon_0'] + (xx - self.a['x_0']) / M, self.a['lat_0'] + (yy - self.a['y_0']) / (0.9 * M))
        elif self.a['kind'] == '4326':
            lonlat = (xx, yy) if self.xy else (yy, xx)
        elif self.a['kind'] == 'metres':
            lonlat = (xx / M, yy / M)
        else:
            unsupported('crs')
        if self.b['kind'] == 'aeqd':
            return ((lonlat[0] - self.b['lon_0']) * M + self.b['x_0'], (lonlat[1] - self.b['lat_0']) * 0.9 * M + self.b['y_0'])
        if self.b['kind'] == '4326':
            return lonlat if self.xy else (lonlat[1], lonlat[0])
        if self.b['kind'] == 'metres':      # some projected system: coordinates are lengths
            return (lonlat[0] * M, lonlat[1] * M)
        unsupported('crs')
