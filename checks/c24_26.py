"""Scripts around the model: terrain sampling, area irregularity, results files.

The geographic and operating-system libraries are replaced by small models (spec/standins) that are interpreted like
the analysed source; anything outside those models is left undecided."""
import math
import os
from .lib import *
from engine import decide as _D

STAND = os.path.join(_D.VERIF, 'spec', 'standins')
SPATHS = [STAND] + _D.PATHS + [os.path.join(_D.REPO, 'vis')]


def hook_open(I, st):
    m = I.import_module('vfs', st)
    I.builtins = dict(I.builtins)
    I.builtins['open'] = st.obj(m.ref).d['open_']


def S(name, src, vs, **kw):
    kw.setdefault('pre', hook_open)
    return Scen(name, src, vs, paths=SPATHS, **kw)


# ------------------------------------------------------------------ C24
NUM = '''
from terrain_module import determine_num_samples
def impl(d):
    return determine_num_samples(d)
def ref(d):
    return round(600 - 1 / (0.00001 * d + 1 / 598))
def inr(d):
    n = determine_num_samples(d)
    return (2 <= n) and (n <= 600), float(n).is_integer()
def yes(d):
    return True, True
'''
LINE = '''
import vraster
vraster.EXACT = %(exact)s
from terrain_module import terrain_p2p
from %(mod)s import straight_line_from_points
def pt(x, y, name):
    return {'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': (x, y)}, 'properties': {'id': name}}
def impl(x, y, dx, dy):
    z, km, pts = terrain_p2p('dem.tif', straight_line_from_points(pt(x, y, 'A'), pt(x + dx, y + dy, 'B')))
    return [v for v in z], km, [(p['geometry']['type'], p['geometry']['coordinates'], p['properties']['elevation']) for p in pts]
def ref(x, y, dx, dy):
    from pyproj import Geod
    n = %(n)d
    cs = [(x + dx * i / (n - 1), y + dy * i / (n - 1)) for i in range(n)]
    z = [vraster.elevation('dem.tif', c[0], c[1]) for c in cs]
    return z, Geod(ellps='WGS84').line_length([x, x + dx], [y, y + dy]) / 1000, [('Point', c, e) for c, e in zip(cs, z)]
'''


def nsamp(d):
    return round(600 - 1 / (1e-5 * d + 1 / 598))


def c24(tier='quick'):
    D = V('d', 0.0, 1e8, log=False, specials=(0.0, 1.0, 1000.0, 77800.0, 1e6), rng=(0.0, 4e5))
    out = [S('count', NUM, [D]), S('count_range', NUM, [D], a='inr', r='yes'),
           S('count_near', NUM, [V('d', 0.0, 1000.0, log=False, specials=(0.0,))]),
           S('count_far', NUM, [V('d', 1e5, 1e8)])]
    want = (2, 3, 4, 5, 7, 10, 20, 50, 120, 300, 590) if tier == 'quick' else tuple(range(2, 30)) + tuple(range(40, 599, 20)) + (595, 598, 599, 600)
    far = [(600, 4e6), (600, 1.7e7), (599, 1.3e5)]
    for n, d in [(n, None) for n in want] + far:
        # length for which the count is n, as a line towards (dx, dy); the stand-in's metre is 1e5 per unit
        if d is None:
            d = (1 / (600 - n) - 1 / 598) / 1e-5 if n < 600 else 1e8
        if nsamp(d) != n:
            continue
        if n == 2:
            d = 0.1
        for k, (ux, uy) in enumerate(((1.0, 0.4), (-0.7, 0.5), (0.3, -1.0), (-0.2, -0.3), (1.0, 0.0), (0.0, 1.0))):
            if k not in ((n + 0) % 6, (n + 1) % 6, (n + 2) % 6) and n > 5:
                continue
            if n > 590 and k != int(d / 1e5) % 4:
                continue
            s = d / (1e5 * math.sqrt(ux * ux + 0.5 * uy * uy))
            ax, ay = ux * s, uy * s
            rel = 1e-7 if n > 2 else 0.01

            def box(v):
                return (v - abs(v) * rel, v + abs(v) * rel)
            vs = [V('x', -179.0, 179.0, log=False), V('y', -60.0, 60.0, log=False)]
            case = {}
            for nm, a in (('dx', ax), ('dy', ay)):
                if a == 0:
                    case[nm] = 0
                vs.append(V(nm, *box(a), log=False))
            mod = ('p2p', 'p2p_2tiles')[(n + k) % 2]
            tag = '' if n < 591 else '_%gkm' % (d / 1000)
            ex = S('line_exact_%d_%d%s' % (n, k, tag), LINE % {'exact': True, 'mod': mod, 'n': n}, vs, budget={'boxmode': 4})
            if n in (3, 5, 20) and k == n % 6:
                # level ground: at sea level, below it, and a terrace
                for nm, f in (('sea', 0), ('low', -3), ('flat', 41.5), ('terrace', None)):
                    src = LINE % {'exact': True, 'mod': mod, 'n': n} + ('vraster.SURFACE = %r\n' % (f if f is not None else 'terrace'))
                    out.append(S('line_%s_%d_%d' % (nm, n, k), src, vs, disc=[case], budget={'boxmode': 4}))
            out.append(S('line_%d_%d%s' % (n, k, tag), LINE % {'exact': False, 'mod': mod, 'n': n}, vs, disc=[case],
                         fallback=lambda ex=ex: ex))
    return out + c24b(tier)


BENT = '''
import vraster
vraster.EXACT = %(exact)s
from terrain_module import terrain_p2p
def impl(x, y, u):
    line = {'type': 'Feature', 'geometry': {'type': 'LineString', 'coordinates': [(x, y), (x + 3 * u, y), (x + 3 * u, y + 4 * u)]}, 'properties': {}}
    z, km, pts = terrain_p2p('other.tif', line)
    return [v for v in z], km, [(p['geometry']['type'], p['geometry']['coordinates'], p['properties']['elevation']) for p in pts]
def ref(x, y, u):
    from pyproj import Geod
    cs = []
    n = %(n)d
    for i in range(n):
        if 7 * i <= 3 * (n - 1):
            cs.append((x + 7 * u * i / (n - 1), y))
        else:
            cs.append((x + 3 * u, y + 7 * u * i / (n - 1) - 3 * u))
    z = [vraster.elevation('other.tif', c[0], c[1]) for c in cs]
    return z, Geod(ellps='WGS84').line_length([x, x + 3 * u, x + 3 * u], [y, y, y + 4 * u]) / 1000, [('Point', c, e) for c, e in zip(cs, z)]
'''


def c24b(tier):
    out = []
    for n in (3, 9, 40) if tier == 'quick' else (3, 4, 5, 8, 9, 15, 30, 40, 100):
        d = (1 / (600 - n) - 1 / 598) / 1e-5
        u = d / (1e5 * (3 + 4 * math.sqrt(.5)))
        if nsamp(1e5 * u * (3 + 4 * math.sqrt(.5))) != n:
            continue
        vs = [V('x', -179.0, 179.0, log=False), V('y', -60.0, 60.0, log=False), V('u', u * (1 - 1e-7), u * (1 + 1e-7), log=False)]
        ex = S('bent_exact_%d' % n, BENT % {'exact': True, 'n': n}, vs, budget={'boxmode': 4})
        out.append(S('bent_%d' % n, BENT % {'exact': False, 'n': n}, vs, fallback=lambda ex=ex: ex))
    return out


# ------------------------------------------------------------------ C25
IDR = '''
import vraster
from terrain_module import interdecile_range
MASK = %(mask)s
def pct(v, num):
    """the num/10 quantile of v by linear interpolation between order statistics"""
    s = sorted(v)
    k = num * (len(s) - 1)
    i = k // 10
    if k %% 10 == 0:
        return s[i]
    return s[i] + (s[i + 1] - s[i]) * (k %% 10) / 10
def idr(v):
    return int(round(pct(v, 9) - pct(v, 1)))
def impl(%(z)s):
    return interdecile_range(vraster.MaskedArray([%(z)s], MASK))
def ref(%(z)s):
    return idr([v for v, m in zip([%(z)s], MASK) if not m])
def plain(%(z)s):
    return interdecile_range(vraster.MaskedArray([%(z)s], [False] * len(MASK)))
def perm(%(z)s):
    v = [%(z)s]
    k = %(k)d
    return interdecile_range(vraster.MaskedArray([v[(i * k + 1) %% len(v)] for i in range(len(v))], [False] * len(MASK)))
def above(%(z)s):
    from terrain_module import all_data
    return [v for v in all_data(vraster.MaskedArray([%(z)s], MASK))]
def rabove(%(z)s):
    return [v for v, m in zip([%(z)s], MASK) if not m and v > 0]
def nonneg(%(z)s):
    return interdecile_range(vraster.MaskedArray([%(z)s], MASK)) >= 0
def yes(%(z)s):
    return True
'''
AREA = '''
import vraster
from terrain_module import terrain_area
''' + IDR[IDR.index('def pct'):IDR.index('def impl')] + '''
M = 111320.0
DIRS = [(0.0, 0.0), (0.5, 0.0), (-0.97, 0.0), (0.0, 0.97), (0.0, -0.6), (0.6, 0.6), (-0.72, 0.68), (0.3, -0.9), (-0.1, -0.2),
        (1.03, 0.0), (0.0, 1.04), (-1.05, 0.0), (0.0, -1.03), (0.75, 0.75), (-0.8, 0.7), (2.0, 1.0), (0.2, 0.1), (0.1, 0.4)]
def cells(lon, lat, r, z):
    """cells around the site: position in units of the radius, and elevation"""
    out = []
    for i in range(len(DIRS)):
        out.append((lon + DIRS[i][0] * r / M, lat + DIRS[i][1] * r / (0.9 * M), z[i %% len(z)] if i < 14 else ZS[i - 14]))
    return out
ZS = %(zs)s
def impl(lon, lat, r, z0, z1, z2, z3, z4):
    vraster.CELLS = cells(lon, lat, r, [z0, z1, z2, z3, z4])
    return terrain_area('dem.tif', lon, lat, r)
def ref(lon, lat, r, z0, z1, z2, z3, z4):
    cs = cells(lon, lat, r, [z0, z1, z2, z3, z4])
    v = []
    for i in range(len(cs)):
        if DIRS[i][0] ** 2 + DIRS[i][1] ** 2 < 1 and cs[i][2] != -9999:
            v.append(cs[i][2])
    return idr(v)
'''


def c25(tier='quick'):
    out = []
    sizes = (1, 2, 3, 4, 5, 6, 8, 11) if tier == 'quick' else tuple(range(1, 16))
    for n in sizes:
        vs = [V('z%d' % i, -420.0, 8850.0, log=False, specials=(0.0, -5.0), rng=(-50.0, 900.0)) for i in range(n)]
        z = ', '.join(v.name for v in vs)
        masks = [[False] * n]
        if n > 1:
            masks += [[i == n - 1 for i in range(n)], [i == 0 for i in range(n)], [i % 2 == 1 for i in range(n)]]
        for k, m in enumerate(masks):
            if all(m):
                continue
            src = IDR % {'mask': repr(m), 'z': z, 'k': 3}
            out.append(S('idr_%d_%d' % (n, k), src, vs))
            if n < 6:
                out.append(S('above_%d_%d' % (n, k), src, vs, a='above', r='rabove', disc=[{}] + [{v.name: c[(i + j) % len(c)] for i, v in enumerate(vs)}
                           for j in range(2) for c in ([0, 3], [-7, 1, 0], [1, 40, 2])]))
            if k < 2:
                out.append(S('sign_%d_%d' % (n, k), src, vs, a='nonneg', r='yes'))
        if n > 1:
            for k in (2, 3, 5, n - 1):
                if math.gcd(k, n) == 1:
                    out.append(S('order_%d_%d' % (n, k), IDR % {'mask': repr(masks[0]), 'z': z, 'k': k}, vs, a='perm', r='plain'))
                    break
    zs = [V('z%d' % i, -420.0, 8850.0, log=False, rng=(-50.0, 900.0)) for i in range(5)]
    ll = [V('lon', -179.0, 179.0, log=False), V('lat', -60.0, 60.0, log=False), V('r', 100.0, 2e5)]
    for k, c in enumerate(('[3.0, 40.0, 0, -12.5]', '[0, 900.0, -9999, 0]', '[0, 0, 55.0, -9999]')):
        src = AREA % {'zs': c}
        out.append(S('area_%d' % k, src, ll + zs))
        for lon, lat, r in ((-0.07, 51.27, 2000), (26.7, -3.5, 30000), (-71, -33, 500), (151.25, -33.75, 10000)):
            out.append(S('area_%d_%s' % (k, lon), src, ll + zs, disc=[{'lon': lon, 'lat': lat, 'r': r}]))
    return out


# ------------------------------------------------------------------ C26
CSV = '''
import vfs
from %(mod)s import csv_writer
def world():
    vfs.DIRS.append('root/old')
    vfs.FILES['root/old/a.csv'] = [['stale', 'x'], [1, 2], [3, 4], [5, 6], [7, 8], [9, 10]]
    vfs.FILES['root/old/b.csv'] = [['other'], [1]]
def rows(a, b, c, d, e):
    return [[{'distance_km': a, 'confidence_level_%%': 50, 'propagation_loss_dB': b}, {'distance_km': c, 'confidence_level_%%': 90, 'propagation_loss_dB': d},
             {'distance_km': a, 'confidence_level_%%': 50, 'propagation_loss_dB': b}, {'propagation_loss_dB': e, 'confidence_level_%%': 10, 'distance_km': d}],
            [{'z': a, 'm': 'text, with comma', 'a': b}, {'z': c, 'm': '', 'a': d}],
            [{'only': a}, {'only': b}, {'only': b}, {'only': a}, {'only': c}, {'only': 0}, {'only': 0}],
            [{'k1': 'v', 'K1': 0, '': c}, {'k1': '', 'K1': 1, '': d}]]
NAMES = [['distance_km', 'confidence_level_%%', 'propagation_loss_dB'], ['z', 'm', 'a'], ['only'], ['k1', 'K1', '']]
def impl(folder, file, which, a, b, c, d, e):
    world()
    data = rows(a, b, c, d, e)[which]
    csv_writer(data, folder, file)
    return vfs.FILES, vfs.isdir(vfs.norm(folder)), data
def ref(folder, file, which, a, b, c, d, e):
    world()
    data = rows(a, b, c, d, e)[which]
    n = NAMES[which]
    vfs.makedirs(folder, True)
    vfs.FILES[vfs.norm(folder + '/' + file)] = [n] + [[r[k] for k in n] for r in data]
    return vfs.FILES, True, data
def many(folder, n, a, b):
    data = [{'distance_km': i, 'confidence_level_%%': 10 + (i * 7) %% 81, 'propagation_loss_dB': a if i %% 2 else b + i} for i in range(n)]
    vfs.makedirs('root', True)
    vfs.FILES['root/m.csv'] = [['stale', 'x']] + [[i, i] for i in range(30)]
    csv_writer(data, folder, 'm.csv')
    return vfs.FILES['root/m.csv']
def rmany(folder, n, a, b):
    return [NAMES[0]] + [[i, 10 + (i * 7) %% 81, a if i %% 2 else b + i] for i in range(n)]
def impl2(folder, file, which, a, b, c, d, e):
    world()
    csv_writer(rows(a, b, c, d, e)[0], folder, file)
    csv_writer(rows(b, c, d, e, a)[which], folder, file)
    csv_writer(rows(c, c, d, e, a)[which], folder, 'second_' + file)
    return vfs.FILES
def ref2(folder, file, which, a, b, c, d, e):
    world()
    vfs.makedirs(folder, True)
    n = NAMES[which]
    vfs.FILES[vfs.norm(folder + '/' + file)] = [n] + [[r[k] for k in n] for r in rows(b, c, d, e, a)[which]]
    vfs.FILES[vfs.norm(folder + '/second_' + file)] = [n] + [[r[k] for k in n] for r in rows(c, c, d, e, a)[which]]
    return vfs.FILES
'''
MAIN = '''
import vfs
from _standin import run_main
vfs.DIRS.append('root/results') if %(have)s else None
def impl():
    run_main('%(mod)s')
    return vfs.FILES['root/results/%(file)s']
def ref():
    rows = [%(rows)s]
    return [list(rows[0])] + [[r[k] for k in rows[0]] for r in rows]
'''
VIS = '''
import vfs
%(imports)s
import vis
def impl(%(args)s):
    rows = %(call)s
    vfs.makedirs('root/results', True)
    %(mod)s.csv_writer(rows, 'root/results', 'out.csv')
    head = list(vfs.FILES['root/results/out.csv'][0])
    vfs.makedirs('root/vis/figures', True)
    vis.plot_%(kind)s_results('root/results/out.csv')
    return head == list(rows[0]), len(vfs.FILES['root/results/out.csv']) == len(rows) + 1
def ref(%(args)s):
    return True, True
'''
VISMAIN = '''
import vfs
from _standin import run_main
def impl(a):
    vfs.makedirs('root/results', True)
    vfs.FILES['root/results/p2p_results.csv'] = [['distance_km', 'reliability_level_%', 'confidence_level_%', 'propagation_loss_dB'], [1, 50, 50, 100], [1, 90, 50, 110]]
    vfs.FILES['root/results/area_results.csv'] = [['distance_km', 'confidence_level_%', 'propagation_loss_dB'], [1, 50, 100], [1, 90, 110]]
    run_main('vis')
    return True
def ref(a):
    return True
'''


def rows_summary(keys):
    from engine.values import Num, Obj, alloc

    def h(I, st, f, args, kw):
        rs = []
        for i in range(4):
            d = {k: (Num(N.sym('row%d_%d' % (i, j), 0.0, 500.0)), N.TRUE, k) for j, k in enumerate(keys)}
            rs.append(alloc(st, Obj('dict', d)))
        return alloc(st, Obj('list', tuple(rs)))
    return h


def hook_main(I, st):
    hook_open(I, st)
    m = I.import_module('vraster', st)


PK = ['distance_km', 'reliability_level_%', 'confidence_level_%', 'propagation_loss_dB']
AK = ['distance_km', 'confidence_level_%', 'propagation_loss_dB']


def c26(tier='quick'):
    out = []
    vs = [V(n, 0.0, 1000.0, log=False) for n in 'abcde']
    for mod in ('p2p', 'p2p_2tiles', 'area', 'area_2tiles'):
        src = CSV % {'mod': mod}
        places = [{'folder': f, 'file': n, 'which': w} for f in ('root', 'root/old', 'root/new', 'root/x/y/z', '/abs/new', 'root/data/../results')
                  for n in ('a.csv', 'new results.csv') for w in range(4)]
        out.append(S('csv_' + mod, src, vs, disc=places))
        out.append(S('twice_' + mod, src, vs, disc=places, a='impl2', r='ref2'))
        out.append(S('many_' + mod, src, vs[:2], disc=[{'folder': 'root', 'n': n} for n in (1, 10, 15, 66, 121, 700, 1200)], a='many', r='rmany'))
    from .terrain_uf import UFRUN, UFAREA
    z = 'z0, z1, z2, z3'
    zs = [V(n.strip(), 0.0, 3000.0, log=False) for n in z.split(',')]
    out.append(S('vis_p2p', VIS % {'imports': 'import p2p', 'mod': 'p2p', 'kind': 'p2p', 'args': 'fmhz, km, hg0, hg1, ' + z,
                                   'call': "p2p.itmlogic_p2p({'fmhz': fmhz, 'd': km, 'hg': [hg0, hg1], 'ipol': 0}, [%s])" % z},
                 [FMHZ, V('km', 1.0, 2000.0), HG0, HG1] + zs, summaries=UFRUN))
    out.append(S('vis_area', VIS % {'imports': 'import area', 'mod': 'area', 'kind': 'area', 'args': 'fmhz, hg0, hg1, dh',
                                    'call': "area.itmlogic_area({'fmhz': fmhz, 'hg': [hg0, hg1], 'dh': dh, 'ipol': 0})"},
                 [FMHZ, HG0, HG1, DH], summaries=UFAREA))
    out.append(S('vis_main', VISMAIN, [V('a', 0.0, 1.0)]))
    for mod, fn, f, ks in (('p2p', 'itmlogic_p2p', 'p2p_results.csv', PK), ('area', 'itmlogic_area', 'area_results.csv', AK),
                           ('area_2tiles', 'itmlogic_area', 'area_results_2tiles.csv', AK)):
        for have in (True, False):
            args = [V('row%d_%d' % (i, j), 0.0, 500.0) for i in range(4) for j in range(len(ks))]
            rows = ', '.join('{' + ', '.join('%r: row%d_%d' % (k, i, j) for j, k in enumerate(ks)) + '}' for i in range(4))
            src = (MAIN % {'mod': mod, 'have': have, 'file': f, 'rows': rows.replace('%', '%')}).replace('def impl():', 'def impl(%s):' % ', '.join(v.name for v in args)).replace(
                'def ref():', 'def ref(%s):' % ', '.join(v.name for v in args))
            out.append(S('main_%s_%s' % (mod, have), src, args, summaries={('__main__', fn): rows_summary(ks)}))
    return out


# ------------------------------------------------------------------ C31
SHP = '''
import vfs
from %(mod)s import write_shapefile, straight_line_from_points
def pt(x, y, props):
    return {'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': (x, y)}, 'properties': props}
def sets(x, y, e):
    return [[pt(x, y, {'id': 'A'})],
            [pt(x, y, {'elevation': e + 0.5}), pt(y, x, {'elevation': x}), pt(x, x, {'elevation': y}), pt(x, y, {'elevation': e + 0.5})],
            [pt(x, y, {'name': 'a', 'height': y, 'count': 3, 'b': 'c'}), pt(y, e, {'name': 'b', 'height': e, 'count': 4, 'b': ''})],
            [{'type': 'Feature', 'geometry': {'type': 'LineString', 'coordinates': [(x, y), (y, e)]}, 'properties': {'id': 'path'}}],
            [pt(x, y, {'elevation': e + 0.5}), pt(x, y, {'elevation': e + 0.5}), pt(x, y, {'elevation': y + 0.5}), pt(y, x, {'elevation': y + 0.5}),
             pt(0, 0, {'elevation': 0.0}), pt(0.0, 51.5, {'elevation': -7.5}), pt(-0.5, 51.5, {'elevation': 0.0})],
            [{'type': 'Feature', 'geometry': {'type': 'LineString', 'coordinates': c}, 'properties': {'id': n, 'k': 0}}
             for c, n in (([(x, y), (y, e)], 'a'), ([(y, e), (x, y)], ''), ([(x, y), (y, e)], 'a'), ([(x, y), (x, y), (x, e)], 'a'))]]
SCHEMA = [{'geometry': 'Point', 'properties': [('id', 'str')]}, {'geometry': 'Point', 'properties': [('elevation', 'float')]},
          {'geometry': 'Point', 'properties': [('name', 'str'), ('height', 'float'), ('count', 'int'), ('b', 'str')]},
          {'geometry': 'LineString', 'properties': [('id', 'str')]}, {'geometry': 'Point', 'properties': [('elevation', 'float')]},
          {'geometry': 'LineString', 'properties': [('id', 'str'), ('k', 'int')]}]
def base(t):
    return 'int' if t in ('int32', 'int64', 'int') else t
def show(f):
    s = f['schema']
    p = s['properties']
    return f['driver'], s['geometry'], [(k, base(p[k])) for k in p], f['records']
def impl(folder, which, x, y, e):
    vfs.DIRS.append('root/old')
    vfs.FILES['root/old/p.shp'] = 'stale'
    data = sets(x, y, e)[which]
    write_shapefile(data, folder, 'p.shp', 'EPSG:4326')
    vfs.FILES[vfs.norm(folder + '/p.shp')]['crs']
    return show(vfs.FILES[vfs.norm(folder + '/p.shp')]), data
def ref(folder, which, x, y, e):
    data = sets(x, y, e)[which]
    return ('ESRI Shapefile', SCHEMA[which]['geometry'], SCHEMA[which]['properties'], data), data
def many(n, x, y, e):
    data = [pt(x + i, y, {'elevation': e + i}) for i in range(n)]
    vfs.makedirs('root', True)
    vfs.FILES['root/m.shp'] = 'stale'
    write_shapefile(data, 'root', 'm.shp', 'EPSG:4326')
    return show(vfs.FILES['root/m.shp'])
def rmany(n, x, y, e):
    return 'ESRI Shapefile', 'Point', [('elevation', 'float')], [pt(x + i, y, {'elevation': e + i}) for i in range(n)]
def crs(c, x, y, e):
    write_shapefile(sets(x, y, e)[0], 'root', 'p.shp', c)
    r = vfs.FILES['root/p.shp']['crs']
    return r['init'] if isinstance(r, dict) else r
def rcrs(c, x, y, e):
    return c
def line(x, y, u, v):
    l = straight_line_from_points(pt(x, y, {'id': 'A'}), pt(u, v, {'id': 'B'}))
    return l['type'], l['geometry']['type'], [tuple(c) for c in l['geometry']['coordinates']]
def line3(x, y, u, v):
    a = {'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': (x, y, 31)}, 'properties': {}}
    b = {'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': [u, v, 77]}, 'properties': {}}
    l = straight_line_from_points(a, b)
    return [(c[0], c[1]) for c in l['geometry']['coordinates']], a['geometry']['coordinates'][:], b['geometry']['coordinates'][:]
def rline3(x, y, u, v):
    return [(x, y), (u, v)], (x, y, 31), [u, v, 77]
def rline(x, y, u, v):
    return 'Feature', 'LineString', [(x, y), (u, v)]
'''


def c31(tier='quick'):
    out = []
    vs = [V(n, -180.0, 180.0, log=False) for n in 'xye']
    for mod in ('p2p', 'p2p_2tiles'):
        src = SHP % {'mod': mod}
        cs = [{'folder': f, 'which': w} for f in ('root', 'root/old', 'root/new', 'root/a/b/c', 'root/data/../shapes') for w in range(6)]
        out.append(S('shapes_' + mod, src, vs, disc=cs))
        out.append(S('crs_' + mod, src, vs, disc=[{'c': 'EPSG:4326'}, {'c': 'EPSG:3857'}, {'c': 'epsg:27700'}], a='crs', r='rcrs'))
        out.append(S('line_' + mod, src, [V(n, -9e6, 9e6, log=False) for n in 'xyuv'], a='line', r='rline'))
        out.append(S('line3_' + mod, src, [V(n, -9e6, 9e6, log=False) for n in 'xyuv'], a='line3', r='rline3'))
        out.append(S('many_' + mod, src, vs, disc=[{'n': n} for n in (1, 60, 700)], a='many', r='rmany'))
    return out


# ------------------------------------------------------------------ C32
FIG = '''
import vfs
from _standin import run_main
LEVELS = [10, 50, 90]
KEYS = %(keys)s
KIND = '%(kind)s'
PNG = 'root/vis/figures/%(kind)s_results.png'
def level(label):
    """the number in a series label"""
    return ''.join([c for c in str(label) if c in '0123456789'])
def table(loss):
    """rows of a results file: key-major as the runners write them, or in another order"""
    rows = []
    for i in range(len(KEYS)):
        for j in range(3):
            if KIND == 'area':
                rows.append([KEYS[i], LEVELS[j], loss[3 * i + j]])
            else:
                rows.append([77.8, KEYS[i], LEVELS[j], loss[3 * i + j]])
    k = %(step)d
    rows = [rows[(i * k + %(off)d) %% len(rows)] for i in range(len(rows))]
    head = ['distance_km', 'confidence_level_%%', 'propagation_loss_dB']
    if KIND == 'p2p':
        head = ['distance_km', 'reliability_level_%%', 'confidence_level_%%', 'propagation_loss_dB']
    return [head] + rows
def put(path, loss):
    vfs.makedirs(vfs.parent(path), True)
    vfs.FILES[path] = table(loss)
def drawn(path):
    out = []
    for s in vfs.FILES[path]['series']:
        out.append([level(s[0]), s[2], s[3]])
    return sorted(out, key=lambda r: r[0])
def axis(path, loss):
    y = vfs.FILES[path]['ylim']
    if y is None:
        return True
    return (y[0] is None or y[0] <= min(loss)) and (y[1] is None or y[1] >= max(loss))
def impl(%(args)s):
    import vis
    loss = [%(args)s]
    put('root/somewhere/mine.csv', loss)
    vfs.makedirs('root/vis/figures', True)
    keep = table(loss)
    vis.plot_%(kind)s_results('root/somewhere/mine.csv')
    return drawn(PNG), axis(PNG, loss), vfs.FILES['root/somewhere/mine.csv'] == keep, sorted(vfs.FILES)
def want(loss):
    out = []
    for j in range(3):
        out.append([str(LEVELS[j]), KEYS, [loss[3 * i + j] for i in range(len(KEYS))]])
    return out
def ref(%(args)s):
    return want([%(args)s]), True, True, sorted(['root/somewhere/mine.csv', PNG])
def twice(%(args)s):
    import vis
    vfs.makedirs('root/vis/figures', True)
    put('root/one/mine.csv', [%(args)s][::-1])
    vis.plot_%(kind)s_results('root/one/mine.csv')
    loss = [%(args)s]
    put('root/somewhere/mine.csv', loss)
    vis.plot_%(kind)s_results('root/somewhere/mine.csv')
    return drawn(PNG), axis(PNG, loss)
def rtwice(%(args)s):
    return want([%(args)s]), True
def main(%(args)s):
    %(have)s
    loss = [%(args)s]
    put('root/results/%(kind)s_results.csv', loss)
    run_main('vis')
    return drawn(PNG), axis(PNG, loss), sorted(vfs.FILES)
def rmain(%(args)s):
    return want([%(args)s]), True, sorted(['root/results/%(kind)s_results.csv', PNG])
def both(%(args)s):
    loss = [%(args)s]
    put('root/results/%(kind)s_results.csv', loss)
    if KIND == 'area':
        vfs.FILES['root/results/p2p_results.csv'] = [['distance_km', 'reliability_level_%%', 'confidence_level_%%', 'propagation_loss_dB']] + [[5, r, c, r + 2 * c] for r in (1, 50) for c in LEVELS]
    else:
        vfs.FILES['root/results/area_results.csv'] = [['distance_km', 'confidence_level_%%', 'propagation_loss_dB']] + [[r, c, r + 2 * c] for r in (10, 20) for c in LEVELS]
    run_main('vis')
    return drawn(PNG), axis(PNG, loss), drawn('root/vis/figures/' + ('p2p' if KIND == 'area' else 'area') + '_results.png'), len(vfs.FILES)
def rboth(%(args)s):
    x = [1, 50] if KIND == 'area' else [10, 20]
    return want([%(args)s]), True, [[str(c), x, [r + 2 * c for r in x]] for c in LEVELS], 4
def none(%(args)s):
    vfs.makedirs('root/results', True)
    put('root/results/other.csv', [%(args)s])
    run_main('vis')
    return sorted(vfs.FILES)
def rnone(%(args)s):
    return ['root/results/other.csv']
'''


def c32(tier='quick'):
    out = []
    for kind, keysets in (('area', ([10, 20, 30, 40], [100, 120, 150, 200, 500])), ('p2p', ([1, 10, 50, 90, 99], [1, 50]))):
        for q, keys in enumerate(keysets):
            n = 3 * len(keys)
            vs = [V('l%d' % i, 1.0, 900.0, log=False, rng=(1.0, 400.0)) for i in range(n)]
            args = ', '.join(v.name for v in vs)
            steps = [(1, 0), (n - 1, 2)] + [(k, 1) for k in (2, 4, 5, 7) if math.gcd(k, n) == 1]
            for k, (step, off) in enumerate(steps):
                src = FIG % {'kind': kind, 'keys': repr(keys), 'step': step, 'off': off, 'args': args,
                             'have': "vfs.makedirs('root/vis/figures', True)\n    vfs.FILES[PNG] = 'stale'" if k % 2 else 'pass'}
                t = '%s_%d_%d' % (kind, q, k)
                out.append(S('plot_' + t, src, vs))
                out.append(S('main_' + t, src, vs, a='main', r='rmain'))
                # equal losses: neighbouring rows, one level throughout, everything
                ties = [{v.name: 100 + 10 * (i // 2) for i, v in enumerate(vs)}, {v.name: 120 + (i % 3) for i, v in enumerate(vs)},
                        {v.name: 130 for v in vs}, {v.name: 100 + 7 * ((5 * i) % n) for i, v in enumerate(vs)}]
                if k < 2:
                    out.append(S('ties_' + t, src, vs, disc=ties))
                if k == 0:
                    out.append(S('twice_' + t, src, vs, a='twice', r='rtwice'))
                    out.append(S('both_' + t, src, vs, a='both', r='rboth'))
                    out.append(S('none_' + t, src, vs, a='none', r='rnone'))
    return out


# ------------------------------------------------------------------ C33
PROFILE = [
    96, 84, 65, 46, 46, 46, 61, 41, 33, 27, 23, 19, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 17, 19, 21, 23, 25, 27,
    29, 35, 46, 41, 35, 30, 33, 35, 37, 40, 35, 30, 51, 62, 76, 46, 46, 46, 46, 46, 46, 50, 56, 67, 106, 83, 95, 112, 137, 137,
    76, 103, 122, 122, 83, 71, 61, 64, 67, 71, 74, 77, 79, 86, 91, 83, 76, 68, 63, 76, 107, 107, 107, 119, 127, 133, 135, 137, 142, 148,
    152, 152, 107, 137, 104, 91, 99, 120, 152, 152, 137, 168, 168, 122, 137, 137, 170, 183, 183, 187, 194, 201, 192, 152, 152, 166, 177, 198, 156, 127,
    116, 107, 104, 101, 98, 95, 103, 91, 97, 102, 107, 107, 107, 103, 98, 94, 91, 105, 122, 122, 122, 122, 122, 137, 137, 137, 137, 137, 137, 137,
    137, 140, 144, 147, 150, 152, 159]
MAINP = '''
import vfs
import terrain_module
from _standin import run_main
SEEN = []
SITES = %(sites)s
def pt(x, y, props):
    return {'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': (x, y)}, 'properties': props}
def fake(z0, z1, z2, km, x, y):
    """what the terrain module gives for the line: any profile, length and sample points"""
    pts = [pt(x, y, {'elevation': z0 + 0.5}), pt(y, x, {'elevation': z1}), pt(x, x, {'elevation': z2})]
    def terrain_p2p(dem, line):
        SEEN.append([vfs.norm(dem), [tuple(c) for c in line['geometry']['coordinates']]])
        return [z0, z1, z2], km, pts
    terrain_module.terrain_p2p = terrain_p2p
    return pts
def same(xs, x):
    return len(xs) > 0 and all([v == x for v in xs])
def show(f):
    s = f['schema']
    p = s['properties']
    c = f['crs']
    c = c['init'] if isinstance(c, dict) else c
    return f['driver'], c.lower(), s['geometry'], [(k, p[k]) for k in p], f['records']
def impl(z0, z1, z2, km, x, y):
    fake(z0, z1, z2, km, x, y)
    %(have)s
    run_main('%(mod)s')
    out = {}
    for k in vfs.FILES:
        out[k] = show(vfs.FILES[k]) if k.endswith('.shp') else vfs.FILES[k]
    return out, same(SEEN, ['root/data/%(dem)s', SITES]), vfs.CALLS
def shp(geom, fields, recs):
    return 'ESRI Shapefile', 'epsg:4326', geom, fields, recs
def ref(z0, z1, z2, km, x, y):
    pts = fake(z0, z1, z2, km, x, y)
    f = {}
    if '%(mod)s' == 'p2p':
        f['root/data/processed/shapes/transmitter.shp'] = shp('Point', [('id', 'str')], [pt(SITES[0][0], SITES[0][1], {'id': 'Crystal Palace radio transmitter'})])
        f['root/data/processed/shapes/receiver.shp'] = shp('Point', [('id', 'str')], [pt(SITES[1][0], SITES[1][1], {'id': 'Mursley'})])
        f['root/data/processed/shapes/points.shp'] = shp('Point', [('elevation', 'float')], pts)
        f['root/results/p2p_results.csv'] = [['row'], [0], [1], [2]]
    else:
        f['root/data/processed/shapes/p2p_2tiles.shp'] = shp('Point', [('elevation', 'float')], pts)
        f['root/results/p2p_results_2tiles.csv'] = [['row'], [0], [1], [2]]
    return f, True, [(41.5, 77.8, [143.9, 8.5], 0, %(profile)s)]
'''
MAINA = '''
import vfs
import terrain_module
from _standin import run_main
SEEN = []
def fake(tip):
    def terrain_area(dem, lon, lat, cell_range):
        SEEN.append([vfs.norm(dem), lon, lat, cell_range])
        return tip
    terrain_module.terrain_area = terrain_area
def same(xs, x):
    return len(xs) > 0 and all([v == x for v in xs])
def impl(tip):
    fake(tip)
    %(have)s
    run_main('%(mod)s')
    return vfs.FILES, same(SEEN, ['root/data/%(dem)s', %(lon)s, %(lat)s, 20000]), vfs.CALLS
def ref(tip):
    return {'root/results/%(file)s': [['row'], [0], [1], [2]]}, True, [(20, [3.3, 1.3], tip, 0)]
'''
MAINC = '''
import vfs
from _standin import run_main
NAMES = ['Tx_Rx1', '2019_Rx_Tx0', '2019_Rx_Tx2', '2019_Rx_Tx3', '2019_Rx_Tx4', '2019_Rx_Tx5']
def sizes(k):
    return [3, 2, 4, 3, 5, 2][k]
def files(%(args)s):
    v = [%(args)s]
    out = []
    i = 0
    for k in range(6):
        n = sizes(k)
        out.append((v[i:i + n], v[i + n:i + 2 * n]))
        i = i + 2 * n
    return out
def impl(%(args)s):
    vfs.makedirs('root/data/pimter', True)
    for name, (h, d) in zip(NAMES, files(%(args)s)):
        vfs.FILES['root/data/pimter/PIMTER_' + name + '_dem_height.csv'] = [[str(q)] for q in h]
        vfs.FILES['root/data/pimter/PIMTER_' + name + '_dem_length.csv'] = [[str(q)] for q in d]
    run_main('pimter')
    return vfs.CALLS
def ref(%(args)s):
    return [(h, d) for h, d in files(%(args)s)]
'''


def capture(take):
    """the runner's arguments are noted and three numbered rows returned"""
    from engine.values import Obj, alloc, Ref

    def h(I, st, f, args, kw):
        d = I.bind(f, args, kw, st)
        v = take(I, st, [d[a.arg] for a in f.node.args.args])
        if v is None:
            return NotImplemented
        m = I.import_module('vfs', st)
        I.call(st.obj(m.ref).d['note'], [v], {}, st)
        rows = [alloc(st, Obj('dict', {'row': (i, N.TRUE, 'row')})) for i in range(3)]
        return alloc(st, Obj('list', tuple(rows)))

    return h


def _copy(I, st, v):
    from engine.values import Obj, alloc
    return alloc(st, Obj('list', tuple(I.iterate(v, st))))


def _fields(I, st, rec, keys):
    from engine.values import Ref
    if not isinstance(rec, Ref) or st.obj(rec).kind != 'dict':
        return None
    d = st.obj(rec).d
    if any(k not in d for k in keys):
        return None
    return [d[k][0] for k in keys]


def take_p2p(I, st, a):
    if len(a) != 2:
        return None
    f = _fields(I, st, a[0], ('fmhz', 'd', 'hg', 'ipol'))
    if f is None:
        return None
    return (f[0], f[1], _copy(I, st, f[2]), f[3], _copy(I, st, a[1]))


def take_area(I, st, a):
    if len(a) != 1:
        return None
    f = _fields(I, st, a[0], ('fmhz', 'hg', 'dh', 'ipol'))
    if f is None:
        return None
    return (f[0], _copy(I, st, f[1]), f[2], f[3])


def take_campaign(I, st, a):
    if len(a) != 2:
        return None
    return (_copy(I, st, a[0]), _copy(I, st, a[1]))


def c33(tier='quick'):
    out = []
    haves = ('pass', "vfs.makedirs('root/results', True)", "vfs.makedirs('root/data/processed/shapes', True)", "vfs.makedirs('root/data/processed', True)")
    for k, have in enumerate(haves):
        for mod, dem, sites in (('p2p', 'ASTGTM2_N51W001_dem.tif', '[(-0.07491679518573545, 51.42413477117786), (-0.8119433954872186, 51.94972494521946)]'),
                                ('p2p_2tiles', 'S_AVE_DSM.vrt', '[(26.676, -3.513), (27.594, -3.514)]')):
            src = MAINP % {'mod': mod, 'dem': dem, 'sites': sites, 'profile': repr(PROFILE), 'have': have}
            vs = [V('z%d' % i, 0.0, 3000.0, log=False) for i in range(3)] + [V('km', 1.0, 500.0)] + [V(n, -60.0, 60.0, log=False) for n in 'xy']
            out.append(S('main_%s_%d' % (mod, k), src, vs, summaries={('__main__', 'itmlogic_p2p'): capture(take_p2p)}, refute=True))
        if k < 2:
            for mod, dem, lon, lat, f in (('area', 'ASTGTM2_N51W001_dem.tif', '-0.07491679518573545', '51.42413477117786', 'area_results.csv'),
                                          ('area_2tiles', 'S_AVE_DSM.vrt', '26.9976', '-3.5409', 'area_results_2tiles.csv')):
                src = MAINA % {'mod': mod, 'dem': dem, 'lon': lon, 'lat': lat, 'file': f, 'have': have}
                out.append(S('main_%s_%d' % (mod, k), src, [V('tip', 0.0, 1000.0, log=False)], summaries={('__main__', 'itmlogic_area'): capture(take_area)}, refute=True))
    vs = [V('v%d' % i, -400.0, 500.0, log=False) for i in range(2 * (3 + 2 + 4 + 3 + 5 + 2))]
    src = MAINC % {'args': ', '.join(v.name for v in vs)}
    out.append(S('main_campaign', src, vs, summaries={('__main__', 'run_itmlogic'): capture(take_campaign)}, refute=True))
    return out
