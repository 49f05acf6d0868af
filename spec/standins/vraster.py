"""The rasters of a scenario; the driver sets the globals."""
import numpy as np
from _standin import uf, unsupported
DEM = 'dem.tif'
EXACT = False       # False: elevation is any function of the position; True: one particular surface
SURFACE = None      # a height everywhere, or 'terrace': two levels
CELLS = []          # (lon, lat, elevation)
NODATA = -9999


def elevation(dem, x, y):
    if not isinstance(dem, str):
        unsupported('raster argument')
    if SURFACE == 'terrace':
        return 120 if x * 3 + y * 5 < 0 else 75
    if SURFACE is not None:
        return SURFACE
    if EXACT:
        k = 1 if dem == DEM else 2
        return 300 + k * (17 * x + 29 * y) + 3 * x * y + 5 * x * x
    return uf('elev', 0 if dem == DEM else 1, x, y)


class MaskedArray:
    def __init__(self, data, mask):
        self.data = np.array(data)
        self.mask = np.array(mask)
        self.ok = [d for d, m in zip(data, mask) if not m]

    def compressed(self):
        return np.array(self.ok)

    def filled(self, v):
        return np.array([v if m else d for d, m in zip(self.data, self.mask)])

    def also(self, extra):
        return MaskedArray(self.data, [m or e for m, e in zip(self.mask, extra)])

    def masked_less(self, v, copy=True):
        return self.also([d < v for d in self.data])

    def masked_less_equal(self, v, copy=True):
        return self.also([d <= v for d in self.data])

    def masked_greater(self, v, copy=True):
        return self.also([d > v for d in self.data])

    def masked_greater_equal(self, v, copy=True):
        return self.also([d >= v for d in self.data])

    def masked_equal(self, v, copy=True):
        return self.also([d == v for d in self.data])

    def masked_not_equal(self, v, copy=True):
        return self.also([d != v for d in self.data])

    def __gt__(self, v):
        return np.array([d > v for d in self.data])

    def __ge__(self, v):
        return np.array([d >= v for d in self.data])

    def __lt__(self, v):
        return np.array([d < v for d in self.data])

    def __le__(self, v):
        return np.array([d <= v for d in self.data])

    def count(self):
        return len(self.ok)

    def min(self):
        return min(self.ok)

    def max(self):
        return max(self.ok)

    def mean(self):
        return sum(self.ok) / len(self.ok)

    @property
    def size(self):
        return len(self.data)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, i):
        if isinstance(i, int):
            unsupported('masked array item')
        i = [bool(b) for b in i]
        return MaskedArray([d for d, b in zip(self.data, i) if b], [m for m, b in zip(self.mask, i) if b])


def masked(dem, zone, nodata, touched=False):
    nd = NODATA if nodata is None else nodata
    if dem != DEM:
        return MaskedArray([1.0, 2.0, 400.0, 7.0], [False, False, False, False])
    data = []
    mask = []
    rx2 = (zone.e[0] - zone.c[0]) ** 2 + (zone.e[1] - zone.c[1]) ** 2
    ry2 = (zone.n[0] - zone.c[0]) ** 2 + (zone.n[1] - zone.c[1]) ** 2
    for x, y, z in CELLS:
        u = (x - zone.c[0]) ** 2 / rx2
        v = (y - zone.c[1]) ** 2 / ry2
        reach = 1.1 if touched else 1       # cells that only touch the zone lie just outside
        if zone.form == 'square':
            inside = u <= reach and v <= reach
        elif zone.form == 'diamond':
            inside = np.sqrt(u) + np.sqrt(v) <= reach
        else:
            inside = u + v <= reach
        data.append(z)
        mask.append((not inside) or z == nd)
    return MaskedArray(data, mask)
