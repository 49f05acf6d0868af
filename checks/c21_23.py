"""Runners: rows, labels and losses against the reference formulas."""
import math
from .lib import *
from .c07_10 import elev, zn
from .terrain_uf import UFRUN, UFAREA

REFRUN = '''
import math
import itm_ref
from itmlogic.preparatory_subroutines.hzns import hzns
from itmlogic.preparatory_subroutines.zlsq1 import zlsq1
from itmlogic.preparatory_subroutines.dlthx import dlthx
from itmlogic.lrprop import lrprop
def H(pfl, dist, hg, gme):
    the, dl = hzns(pfl, dist, hg, gme)
    return the[0], the[1], dl[0], dl[1]
def fsl(wn, dist):
    return 8.685890 * math.log(2 * wn * dist)
def refuloss(fmhz, pfl, hg, ipol, pairs):
    """losses with the component routines as given functions"""
    wn, gme, ens, zgnd = itm_ref.qlrps(fmhz, 0, 314, ipol, 15, 0.005)
    dist, he, dl, the, dh = itm_ref.qlrpfl_setup(pfl, hg, gme, (H, zlsq1, dlthx))
    p = {'wn': wn, 'gme': gme, 'ens': ens, 'zgnd': zgnd, 'hg': hg, 'he': he, 'dl': dl, 'the': the, 'dh': dh, 'mdp': -1,
         'dist': dist, 'kwx': 0}
    p = lrprop(0, p)
    out = []
    for r, c in pairs:
        a, k, kl = itm_ref.avar(itm_ref.qerfi1(r / 100), 0, itm_ref.qerfi1(c / 100), p['aref'], dist, he, wn, dh, 5, 11, 0)
        out.append(fsl(wn, dist) + a)
    return out
def refloss(fmhz, pfl, hg, ipol, pairs):
    """losses by the reference formulas alone"""
    wn, gme, ens, zgnd = itm_ref.qlrps(fmhz, 0, 314, ipol, 15, 0.005)
    S, dist, aref, kwx = itm_ref.ptp(pfl, hg, wn, gme, ens, zgnd, 0, itm_ref.PLAIN)
    out = []
    for r, c in pairs:
        a, k, kl = itm_ref.avar(itm_ref.qerfi1(r / 100), 0, itm_ref.qerfi1(c / 100), aref, dist, S['he'], wn, S['dh'], 5, 11, 0)
        out.append(fsl(wn, dist) + a)
    return out
'''
P2P = REFRUN + '''
from %(mod)s import itmlogic_p2p
PAIRS = [(r, c) for r in [1, 10, 50, 90, 99] for c in [50, 90, 10]]
def impl(ipol, fmhz, km, hg0, hg1, %(z)s):
    return itmlogic_p2p({'fmhz': fmhz, 'd': km, 'hg': [hg0, hg1], 'ipol': ipol}, [%(z)s])
def rows(km, ls):
    return [{'distance_km': km, 'reliability_level_%%': p[0], 'confidence_level_%%': p[1], 'propagation_loss_dB': l} for p, l in zip(PAIRS, ls)]
def refu(ipol, fmhz, km, hg0, hg1, %(z)s):
    return rows(km, refuloss(fmhz, [%(n)d, km * 1000 / %(n)d, %(z)s], [hg0, hg1], ipol, PAIRS))
def ref(ipol, fmhz, km, hg0, hg1, %(z)s):
    return rows(km, refloss(fmhz, [%(n)d, km * 1000 / %(n)d, %(z)s], [hg0, hg1], ipol, PAIRS))
'''
KM = V('km', 1.0, 2000.0, rng=(2.0, 900.0))


def p2p_native(n):
    def native(p, case):
        R = spec()
        wn, gme, ens, zgnd = R.qlrps(p['fmhz'], 0, 314, case['ipol'], 15, .005)
        pfl = [n, p['km'] * 1000 / n] + [p['z%d' % i] for i in range(n + 1)]
        R.ptp(pfl, [p['hg0'], p['hg1']], wn, gme, ens, zgnd, 0, R.PLAIN)
    return native


def c21(tier='quick'):
    out = []
    for mod in ('p2p', 'p2p_2tiles'):
        for n in ((2, 3, 6, 9, 60, 650) if tier == 'quick' else (2, 3, 4, 5, 6, 9, 12, 16, 40, 100, 300, 599, 600, 601, 1200)):
            src = P2P % {'mod': mod, 'z': zn(n), 'n': n}
            vs = beyond([FMHZ, KM, HG0, HG1]) + elev(n)

            def full(src=src, vs=vs, n=n, mod=mod):
                return Scen('%s_full_n%d' % (mod, n), src, vs, native=p2p_native(n), budget={'boxmode': 60 if n < 50 else 6}, ordered_keys=True,
                            exact=r'(z\d+|km)$', max_steps=4000000, limit=2000000)
            out.append(Scen('%s_n%d' % (mod, n), src, vs, disc={'ipol': [0, 1]}, r='refu', summaries=UFRUN, fallback=full,
                            ordered_keys=True, always=n in (3, 9, 60)))
    return out


AREAS = REFRUN + '''
from %(mod)s import itmlogic_area
DIST = [10, 20, 30, 40, 50, 60, 70, 80, 90, 100, 110, 120, 130, 140, 150, 200, 250, 300, 350, 400, 450, 500]
def impl(ipol, fmhz, hg0, hg1, dh):
    return itmlogic_area({'fmhz': fmhz, 'hg': [hg0, hg1], 'dh': dh, 'ipol': ipol})
def rows(fmhz, ipol, hg0, hg1, dh, at):
    wn, gme, ens, zgnd = itm_ref.qlrps(fmhz, 0, 301, ipol, 15, 0.001)
    S = itm_ref.area([hg0, hg1], [2, 2], dh, wn, gme, ens, zgnd)
    p = {'wn': wn, 'gme': gme, 'ens': ens, 'zgnd': zgnd, 'hg': [hg0, hg1], 'he': S['he'], 'dl': S['dl'], 'the': S['the'], 'dh': dh,
         'mdp': 1, 'kwx': 0}
    out = []
    for d in DIST:
        a0 = at(S, p, d * 1000)
        for c in [50, 90, 10]:
            a, k, kl = itm_ref.avar(0, 0, itm_ref.qerfi1(c / 100), a0, d * 1000, S['he'], wn, dh, 5, 3, 0)
            out.append({'distance_km': d, 'confidence_level_%%': c, 'propagation_loss_dB': fsl(wn, d * 1000) + a})
    return out
def byref(S, p, x):
    return itm_ref.aref_at(S, x)[0]
def bycode(S, p, x):
    return lrprop(x, dict(p))['aref']
def ref(ipol, fmhz, hg0, hg1, dh):
    return rows(fmhz, ipol, hg0, hg1, dh, byref)
def refu(ipol, fmhz, hg0, hg1, dh):
    return rows(fmhz, ipol, hg0, hg1, dh, bycode)
'''


def area_native(p, case):
    R = spec()
    wn, gme, ens, zgnd = R.qlrps(p['fmhz'], 0, 301, case['ipol'], 15, .001)
    S = R.area([p['hg0'], p['hg1']], [2, 2], p['dh'], wn, gme, ens, zgnd)
    for d in (10, 50, 150, 300, 500):
        R.aref_at(S, d * 1000)


def c22(tier='quick'):
    out = []
    for mod in ('area', 'area_2tiles'):
        src, vs = AREAS % {'mod': mod}, beyond([FMHZ, HG0, HG1, DH])

        def full(src=src, vs=vs, mod=mod):
            return Scen(mod + '_full', src, vs, native=area_native, budget={'boxmode': 40}, ordered_keys=True)
        out.append(Scen(mod, src, vs, disc={'ipol': [0, 1]}, r='refu', summaries=UFAREA, fallback=full, ordered_keys=True, always=True))
    return out


PIM = REFRUN + '''
from pimter import run_itmlogic
HTS = list(range(10, 131))
def impl(xi, %(z)s):
    return run_itmlogic([%(z)s], [%(off)s + i * xi for i in range(%(m)d)])
def refu(xi, %(z)s):
    return [(2488, h, 50, refuloss(2488, [%(n)d, xi, %(z)s], [2.56, h], 1, [(50, 50)])[0]) for h in HTS]
def ref(xi, %(z)s):
    return [(2488, h, 50, refloss(2488, [%(n)d, xi, %(z)s], [2.56, h], 1, [(50, 50)])[0]) for h in HTS]
'''


def pim_native(n):
    def native(p, case):
        R = spec()
        wn, gme, ens, zgnd = R.qlrps(2488, 0, 314, 1, 15, .005)
        pfl = [n, p['xi']] + [p['z%d' % i] for i in range(n + 1)]
        for h in (10, 60, 130):
            R.ptp(pfl, [2.56, h], wn, gme, ens, zgnd, 0, R.PLAIN)
    return native


def c23(tier='quick'):
    out = []
    for n in ((2, 3, 6, 40) if tier == 'quick' else (2, 3, 4, 5, 6, 9, 12, 40, 300)):
        src = PIM % {'z': zn(n), 'n': n, 'm': n + 1, 'off': '250' if n == 6 else '0'}
        vs = [V('xi', 600.0, 20000.0)] + elev(n)

        def full(src=src, vs=vs, n=n):
            return Scen('pimter_full_n%d' % n, src, vs, native=pim_native(n), budget={'boxmode': 1 if tier == 'quick' else 2}, boxlim=120, max_steps=4000000,
                        time_limit=200, limit=4000000, exact=r'(z\d+|xi)$')
        out.append(Scen('pimter_n%d' % n, src, vs, r='refu', summaries=UFRUN, fallback=full, always=n == 3, max_steps=4000000,
                        time_limit=200, limit=4000000))
    return out


# ------------------------------------------------------------------ C34: what the runners and scripts print
REPORT = REFRUN + """
from _standin import listen, said, figure
from %(mod)s import itmlogic_p2p
HEARD = {}
def impl(ipol, fmhz, km, hg0, hg1, %(z)s):
    listen(HEARD)
    itmlogic_p2p({'fmhz': fmhz, 'd': km, 'hg': [hg0, hg1], 'ipol': ipol}, [%(z)s])
    return {'los': said('line of sight'), 'single': said('single horizon') or said('single-horizon'),
            'double': said('double horizon') or said('double-horizon'), 'diffraction': said('diffraction'),
            'scatter': said('scatter'), 'free': figure('free space'), 'levels': figure('confidence levels')}
def says(dist, xi, wn, dlsa, dx):
    q = dist - dlsa
    far = q > 0
    # beyond the smooth-earth horizons by more than half an interval, short of them by as much, or neither
    q = max(q - 0.5 * xi, 0) - max(-q - 0.5 * xi, 0)
    dom = False
    sca = False
    if far:
        dom = dist <= dx()
        sca = dist > dx()
    return {'los': q < 0, 'single': q == 0, 'double': q > 0, 'diffraction': dom, 'scatter': sca,
            'free': [fsl(wn, dist)], 'levels': [50, 90, 10]}
def refu(ipol, fmhz, km, hg0, hg1, %(z)s):
    hg = [hg0, hg1]
    pfl = [%(n)d, km * 1000 / %(n)d, %(z)s]
    wn, gme, ens, zgnd = itm_ref.qlrps(fmhz, 0, 314, ipol, 15, 0.005)
    dist, he, dl, the, dh = itm_ref.qlrpfl_setup(pfl, hg, gme, (H, zlsq1, dlthx))
    p = {'wn': wn, 'gme': gme, 'ens': ens, 'zgnd': zgnd, 'hg': hg, 'he': he, 'dl': dl, 'the': the, 'dh': dh, 'mdp': -1,
         'dist': dist, 'kwx': 0}
    p = lrprop(0, p)
    return says(dist, pfl[1], wn, p['dlsa'], lambda: p['dx'])
def ref(ipol, fmhz, km, hg0, hg1, %(z)s):
    pfl = [%(n)d, km * 1000 / %(n)d, %(z)s]
    wn, gme, ens, zgnd = itm_ref.qlrps(fmhz, 0, 314, ipol, 15, 0.005)
    S, dist, aref, kwx = itm_ref.ptp(pfl, [hg0, hg1], wn, gme, ens, zgnd, 0, itm_ref.PLAIN)
    return says(dist, pfl[1], wn, S['dlsa'], lambda: itm_ref.scat_line(S)[2])
"""

MAINREP = """
import terrain_module
from _standin import run_main, listen, said, figure
HEARD = {}
def impl(z0, z1, z2, km, x, y, tip):
    def terrain_p2p(dem, line):
        pts = [{'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': (a, b)}, 'properties': {'elevation': z}}
               for a, b, z in ((x, y, z0), (y, x, z1), (x, x, z2))]
        return [z0, z1, z2], km, pts
    def terrain_area(dem, lon, lat, cell_range):
        return tip
    terrain_module.terrain_p2p = terrain_p2p
    terrain_module.terrain_area = terrain_area
    listen(HEARD)
    run_main('%(mod)s')
    return figure('%(what)s')
def ref(z0, z1, z2, km, x, y, tip):
    return [%(val)s]
"""


def report_native(n):
    def native(p, case):
        R = spec()
        wn, gme, ens, zgnd = R.qlrps(p['fmhz'], 0, 314, case['ipol'], 15, .005)
        pfl = [n, p['km'] * 1000 / n] + [p['z%d' % i] for i in range(n + 1)]
        S, dist, aref, kwx = R.ptp(pfl, [p['hg0'], p['hg1']], wn, gme, ens, zgnd, 0, R.PLAIN)
        q = (dist - S['dlsa']) / pfl[1]
        return (min(max(math.floor(5 * q), -6), 5), dist > S['dlsa'] and dist > R.scat_line(S)[2], p['km'] < 2 * n, p['km'] < n)
    return native


def c34(tier='quick'):
    from .c24_26 import S, capture, take_p2p, take_area
    out = []
    vs = [V('z%d' % i, 0.0, 3000.0, log=False) for i in range(3)] + [V('km', 1.0, 500.0)] + [V(n, -60.0, 60.0, log=False) for n in 'xy'] + [V('tip', 0.0, 1000.0, log=False)]
    for mod, what, val in (('p2p', 'distance is', 'km'), ('p2p_2tiles', 'distance is', 'km'), ('p2p_2tiles', 'sampled', '3'),
                           ('area', 'tip for', 'tip'), ('area_2tiles', 'tip for', 'tip')):
        out.append(S('main_%s_%s' % (mod, what.split()[0]), MAINREP % {'mod': mod, 'what': what, 'val': val}, vs, refute=True,
                     summaries={('__main__', 'itmlogic_p2p'): capture(take_p2p), ('__main__', 'itmlogic_area'): capture(take_area)}))
    for mod in ('p2p', 'p2p_2tiles'):
        for n in ((2, 3, 6, 9) if tier == 'quick' else (2, 3, 4, 5, 6, 9, 12, 16, 40)):
            src = REPORT % {'mod': mod, 'z': zn(n), 'n': n}
            vs = beyond([FMHZ, KM, HG0, HG1]) + elev(n)

            def full(src=src, vs=vs, n=n, mod=mod):
                return Scen('%s_report_full_n%d' % (mod, n), src, vs, native=report_native(n), budget={'boxmode': 60}, exact=r'(z\d+|km)$',
                            max_steps=4000000, limit=2000000)
            out.append(Scen('%s_report_n%d' % (mod, n), src, vs, disc={'ipol': [0, 1]}, r='refu', summaries=UFRUN, fallback=full, always=n in (3, 9)))
    return out
