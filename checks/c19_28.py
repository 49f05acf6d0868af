from .lib import *
from .c07_10 import elev, zn, XI
from .c09 import PREC, PV, XIP
from .c11_14 import AREA, AV, AN, ZZ, SV, SN, REC5, dv
from .terrain_uf import UF, UFL, UFR


def c19(tier='quick'):
    out = []
    kw = dict(faults='prove')
    # set-up from user-level inputs
    src = '''
from itmlogic.preparatory_subroutines.qlrps import qlrps
def impl(ipol, fmhz, zsys, en0, eps, sgm):
    r = qlrps(fmhz, zsys, en0, ipol, eps, sgm)
    return r
import itm_ref
def ref(ipol, fmhz, zsys, en0, eps, sgm):
    return itm_ref.qlrps(fmhz, zsys, en0, ipol, eps, sgm)
'''
    out.append(Scen('qlrps', src, [FMHZ, ZSYS, EN0, EPS, SGM], disc={'ipol': [0, 1]}, **kw))
    # area mode: any siting, any order of two distances, any climate and mode
    src = AREA + '''
def impl(k0, k1, klim, mdvar, da, d, zt, zl, zc, %(n)s):
    p = prep(k0, k1, %(n)s, klim, mdvar)
    p = lrprop(da, p)
    a, p = avar(zt, zl, zc, p)
    p['lvar'] = max(1, p['lvar'])
    p = lrprop(d, p)
    b, p = avar(zt, zl, zc, p)
    return a, b, p['aref'], p['kwx']
import itm_ref
def ref(k0, k1, klim, mdvar, da, d, zt, zl, zc, %(n)s):
    S = itm_ref.area([hg0, hg1], [k0, k1], dh, wn, gme, ens, complex(zr, zi))
    itm_ref.diff_line(S)
    itm_ref.warn(S, d, 0)
    for x in (da, d):
        r = itm_ref.aref_at(S, x)
        itm_ref.avar(zt, zl, zc, r[0], x, S['he'], wn, dh, klim, mdvar, 0)
    return 0
''' % {'n': AN}
    cases = [{'k0': a, 'k1': b, 'klim': 1 + (3 * a + b) % 7, 'mdvar': (0, 1, 2, 3, 10, 12, 23, 30, 13)[3 * a + b]} for a in (0, 1, 2) for b in (0, 1, 2)]
    out.append(Scen('area', src, [dv('da'), dv('d')] + ZZ + AV, disc=cases, **kw))
    # propagation core, free geometry, both modes
    src = RECORD + '''
from itmlogic.lrprop import lrprop
def impl(mdp, d, %(n)s):
    p = record(%(n)s, mdp)
    p['dist'] = d
    p = lrprop(d, p)
    return p['aref'], p['kwx']
import itm_ref
def ref(mdp, d, %(n)s):
    S = itm_ref.make(wn, gme, ens, complex(zr, zi), [hg0, hg1], [he0, he1], [dl0, dl1], [the0, the1], dh, mdp < 0)
    itm_ref.diff_line(S)
    return itm_ref.aref_at(S, d)
''' % {'n': CORENAMES}
    out.append(Scen('lrprop', src, [DIST] + CORE, disc={'mdp': [-1, 1]}, **kw))
    src = REC5 + '''
def impl(klim, mdvar, zt, zl, zc, %(sn)s):
    a, p = avar(zt, zl, zc, rec(klim, mdvar, 5, %(sn)s))
    return a, p['kwx']
import itm_ref
def ref(klim, mdvar, zt, zl, zc, %(sn)s):
    return itm_ref.avar(zt, zl, zc, aref, d, [he0, he1], wn, dh, klim, mdvar, 0)
''' % {'sn': SN}
    out.append(Scen('avar', src, ZZ + SV, disc={'klim': [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8], 'mdvar': [-1, 0, 1, 2, 3, 4, 10, 13, 20, 23, 33, 40]}, **kw))
    # terrain routines: any profile, then an exactly flat one
    for n in (2, 3, 5, 8, 60):
        src = '''
from itmlogic.preparatory_subroutines.hzns import hzns
def impl(xi, hg0, hg1, gme, %(z)s):
    the, dl = hzns([%(n)d, xi, %(z)s], %(n)d * xi, [hg0, hg1], gme)
    return the[0], the[1], dl[0], dl[1]
import itm_ref
def ref(xi, hg0, hg1, gme, %(z)s):
    return itm_ref.hzns([%(n)d, xi, %(z)s], %(n)d * xi, [hg0, hg1], gme)
''' % {'z': zn(n), 'n': n}
        out.append(Scen('hzns_n%d' % n, src, [XI, HG0, HG1, GME] + elev(n), **kw))
    src = '''
from itmlogic.preparatory_subroutines.zlsq1 import zlsq1
from itmlogic.preparatory_subroutines.dlthx import dlthx
def impl(a, b, xi, %(z)s):
    return zlsq1([%(n)d, xi, %(z)s], a * xi, b * xi), dlthx([%(n)d, xi, %(z)s], a * xi, b * xi)
import itm_ref
def ref(a, b, xi, %(z)s):
    return itm_ref.zlsq1([%(n)d, xi, %(z)s], a * xi, b * xi), itm_ref.dlthx([%(n)d, xi, %(z)s], a * xi, b * xi)
'''
    for n, a, b in ((2, 0.0, 2.0), (2, 0.1, 1.9), (2, 0.4, 0.6), (2, 1.0, 1.1), (2, 1.9, 2.0), (2, 0.0, 0.05), (4, 0.0, 4.0), (4, 0.5, 3.5), (4, 1.2, 1.7), (4, 3.9, 4.0), (4, 0.0, 0.3), (4, 0.9, 3.1),
                    (10, 0.2, 9.7), (10, 4.9, 5.1), (30, 1.5, 28.5), (60, 0.7, 59.2), (250, 2.0, 247.5), (600, 1.5, 599.2)):
        out.append(Scen('fit_n%d(%s,%s)' % (n, a, b), src % {'z': zn(n), 'n': n}, [V('a', 0, 1), V('b', 0, 1), XI] + elev(n), disc={'a': [a], 'b': [b]}, **kw))
    # whole point-to-point predictions, box by box: rugged, flat and stepped profiles
    pn = ', '.join(v.name for v in PV)
    tail = '''
from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
from itmlogic.statistics.avar import avar
def impl(zt, %(pn)s, %(par)s):
    p = qlrpfl(ptprec(%(n)d, xi, [%(z)s], hg0, hg1, wn, gme, ens, zr, zi))
    a, p = avar(zt, zt, zt, p)
    return a, p['aref'], p['kwx'], p['dh'], p['he'][0], p['he'][1]
from itmlogic.preparatory_subroutines.hzns import hzns
from itmlogic.preparatory_subroutines.zlsq1 import zlsq1
from itmlogic.preparatory_subroutines.dlthx import dlthx
from itmlogic.lrprop import lrprop
import itm_ref
def H(pfl, dist, hg, gme):
    the, dl = hzns(pfl, dist, hg, gme)
    return the[0], the[1], dl[0], dl[1]
def refu(zt, %(pn)s, %(par)s):
    dist, he, dl, the, dh = itm_ref.qlrpfl_setup([%(n)d, xi, %(z)s], [hg0, hg1], gme, (H, zlsq1, dlthx))
    p = {'wn': wn, 'gme': gme, 'ens': ens, 'zgnd': complex(zr, zi), 'hg': [hg0, hg1], 'he': he, 'dl': dl, 'the': the, 'dh': dh, 'mdp': -1,
         'dist': dist, 'kwx': 0}
    p = lrprop(0, p)
    return itm_ref.avar(zt, zt, zt, p['aref'], dist, he, wn, dh, 5, 12, 0)
def ref(zt, %(pn)s, %(par)s):
    return 0
'''
    shapes = {'flat': lambda n: ['z0'] * (n + 1), 'ramp': lambda n: ['z0 + %d * s' % i for i in range(n + 1)],
              'step': lambda n: ['z0'] * (n // 2) + ['z0 + s'] * (n + 1 - n // 2), 'ridge': lambda n: ['z0'] * (n // 2) + ['z0 + s'] + ['z0'] * (n - n // 2),
              'two_ridges': lambda n: ['z0 + s' if i in (1, n - 1) else 'z0' for i in range(n + 1)]}
    sv = [V('z0', -400.0, 3000.0, log=False, rng=(0.0, 500.0)), V('s', 0.01, 900.0)]
    for nm, f in shapes.items():
        for n in ((2, 3, 6, 11) if tier == 'quick' else (2, 3, 4, 5, 6, 8, 11, 17, 30)) + ((450,) if nm in ('ramp', 'two_ridges') else ()):
            if nm == 'two_ridges' and n < 3:
                continue
            src = PREC + tail % {'pn': pn, 'par': 'z0, s', 'z': ', '.join(f(n)), 'n': n}
            vs = [V('zt', -3.0, 3.0, log=False)] + PV + sv
            if n > 99:
                vs = [V('xi', 60.0, 1500.0) if v.name == 'xi' else V('s', 0.001, 3.0) if v.name == 's' and nm == 'ramp' else v for v in vs]
            big = Scen('ptp_%s_n%d' % (nm, n), src, vs, budget={'boxmode': 20 if n < 99 else 2}, boxlim=8, faults='prove')
            out.append(Scen('ptp_%s_n%d' % (nm, n), src, vs, r='refu', summaries=UFL, faults='prove', fallback=lambda b=big: b, always=True))
    for n in ((2, 4) if tier == 'quick' else (2, 3, 4, 5, 9)):
        src = PREC + tail % {'pn': pn, 'par': zn(n), 'z': zn(n), 'n': n}
        vs = [V('zt', -3.0, 3.0, log=False)] + PV + elev(n)
        big = Scen('ptp_n%d' % n, src, vs, budget={'boxmode': 40}, boxlim=20, faults='prove')
        out.append(Scen('ptp_n%d' % n, src, vs, r='refu', summaries=UFL, faults='prove', fallback=lambda b=big: b, always=True))
    return out


def c20(tier='quick'):
    out = []
    src = RECORD + '''
from itmlogic.lrprop import lrprop
def impl(mdp, d, %(n)s):
    p = record(%(n)s, mdp)
    p['dist'] = d
    return lrprop(d, p)['aref'] >= 0
def ref(mdp, d, %(n)s):
    return True
def later(da, d, %(n)s):
    p = lrprop(da, record(%(n)s, 1))
    return lrprop(d, p)['aref'] >= 0
def later_ref(da, d, %(n)s):
    return True
''' % {'n': CORENAMES}
    out.append(Scen('aref', src, [DIST] + CORE, disc={'mdp': [-1, 1]}, faults=False))
    out.append(Scen('aref_sweep', src, [dv('da'), dv('d')] + CORE, a='later', r='later_ref', faults=False))
    out.append(Scen('qerf', '''
from itmlogic.misc.qerf import qerf
def impl(z): return qerf(z) >= 0, qerf(z) <= 1
def ref(z): return True, True
''', [V('z', -50.0, 50.0, log=False, specials=(0.0, 10.0, -10.0), rng=(-12.0, 12.0))]))
    src = '''
from itmlogic.misc.qerfi import qerfi
def above(p): return qerfi([p])[0] >= -1e-9
def below(p): return qerfi([p])[0] <= 1e-9
def ref(p): return True
'''
    out.append(Scen('qerfi_low', src, [V('p', 0.0, 0.5, log=False, specials=(0.0, 0.5, 1e-6))], a='above'))
    out.append(Scen('qerfi_high', src, [V('p', 0.5, 1.0, log=False, specials=(0.5, 1.0))], a='below'))
    src = '''
from itmlogic.preparatory_subroutines.dlthx import dlthx
def impl(a, b, xi, %(z)s): return dlthx([%(n)d, xi, %(z)s], a * xi, b * xi) >= 0
def ref(a, b, xi, %(z)s): return True
'''
    for n, a, b in ((3, 0.0, 1.9), (4, 0.0, 4.0), (4, 0.5, 3.5), (6, 1.25, 5.75), (10, 0.2, 9.7), (25, 0.2, 24.7), (300, 0.2, 299.7)):
        out.append(Scen('dlthx_n%d(%s,%s)' % (n, a, b), src % {'z': zn(n), 'n': n}, [V('a', 0, 1), V('b', 0, 1), XI] + elev(n), disc={'a': [a], 'b': [b]}))
    src = AREA + '''
def go(k0, k1, %(n)s):
    p = prep(k0, k1, %(n)s)
    return p['he'][0], p['he'][1], p['dl'][0], p['dl'][1]
def impl(k0, k1, %(n)s):
    a, b, c, d = go(k0, k1, %(n)s)
    return a - hg0 >= -1e-9, b - hg1 >= -1e-9, c > 0, d > 0
def ref(k0, k1, %(n)s):
    return True, True, True, True
''' % {'n': AN}
    out.append(Scen('area', src, AV, disc={'k0': [-1, 0, 1, 2, 3], 'k1': [0, 1, 2]}, faults=False))
    for n in (2, 3, 5, 8, 40, 220):
        src = '''
from itmlogic.preparatory_subroutines.hzns import hzns
def go(xi, hg0, hg1, gme, %(z)s):
    the, dl = hzns([%(n)d, xi, %(z)s], %(n)d * xi, [hg0, hg1], gme)
    return dl[0], dl[1]
def impl(xi, hg0, hg1, gme, %(z)s):
    a, b = go(xi, hg0, hg1, gme, %(z)s)
    return a / xi > 0, b / xi > 0, a / xi <= %(n)d, b / xi <= %(n)d
def ref(xi, hg0, hg1, gme, %(z)s):
    return True, True, True, True
''' % {'z': zn(n), 'n': n}
        out.append(Scen('hzns_n%d' % n, src, [XI, HG0, HG1, GME] + elev(n), faults=False))
    pn = ', '.join(v.name for v in PV)
    for n in (2, 3, 6):
        src = PREC + '''
from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
def go(%(pn)s, %(z)s):
    p = qlrpfl(ptprec(%(n)d, xi, [%(z)s], hg0, hg1, wn, gme, ens, zr, zi))
    return p['he'][0], p['he'][1], p['dl'][0], p['dl'][1], p['dh'], p['aref']
def impl(%(pn)s, %(z)s):
    a, b, c, d, e, f = go(%(pn)s, %(z)s)
    return a - hg0 >= -1e-9, b - hg1 >= -1e-9, c > 0, d > 0, e >= 0, f >= 0
def ref(%(pn)s, %(z)s):
    return True, True, True, True, True, True
''' % {'pn': pn, 'z': zn(n), 'n': n}
        vs = PV + elev(n)
        fb = Scen('ptp_n%d' % n, src, vs, budget={'boxmode': 60}, faults=False)
        out.append(Scen('ptp_n%d' % n, src, vs, summaries=UFL, faults=False, fallback=lambda fb=fb: fb))
    return out


def c27(tier='quick'):
    src = AREA + '''
def go(k0, k1, d, zt, zl, zc, wn, hg0, hg1, gme, ens, zr, zi, dh):
    p = prep(k0, k1, wn, hg0, hg1, gme, ens, zr, zi, dh)
    he, dl, the = p['he'], p['dl'], p['the']
    p = lrprop(d, p)
    a, p = avar(zt, zl, zc, p)
    return he, dl, the, p['aref'], a, p['kwx']
def skip(o, a, b):
    return not (a < b if o == 0 else b < a)
def impl(o, k0, k1, d, zt, zl, zc, %(n)s):
    q = prep(k0, k1, %(n)s)
    if skip(o, q['dl'][0], q['dl'][1]):
        return q['he'][0], q['he'][1], q['dl'][0], q['dl'][1], q['the'][0], q['the'][1], 0, 0, 0
    he, dl, the, aref, a, k = go(k0, k1, d, zt, zl, zc, %(n)s)
    return he[0], he[1], dl[0], dl[1], the[0], the[1], aref, a, k
def ref(o, k0, k1, d, zt, zl, zc, %(n)s):
    q = prep(k0, k1, %(n)s)
    if skip(o, q['dl'][0], q['dl'][1]):
        q = prep(k1, k0, wn, hg1, hg0, gme, ens, zr, zi, dh)
        return q['he'][1], q['he'][0], q['dl'][1], q['dl'][0], q['the'][1], q['the'][0], 0, 0, 0
    he, dl, the, aref, a, k = go(k1, k0, d, zt, zl, zc, wn, hg1, hg0, gme, ens, zr, zi, dh)
    return he[1], he[0], dl[1], dl[0], the[1], the[0], aref, a, k
''' % {'n': AN}
    ks = [{'o': o, 'k0': a, 'k1': b} for o in (0, 1) for a in (0, 1, 2) for b in (0, 1, 2) if a <= b]
    out = [Scen('swap', src, [dv('d')] + ZZ + AV, disc=ks, faults=False)]
    # masts of one height on different sites
    same = src.replace('def impl(', 'def impl0(').replace('def ref(', 'def ref0(') + '''
def impl(o, k0, k1, d, zt, zl, zc, %(m)s): return impl0(o, k0, k1, d, zt, zl, zc, %(e)s)
def ref(o, k0, k1, d, zt, zl, zc, %(m)s): return ref0(o, k0, k1, d, zt, zl, zc, %(e)s)
''' % {'m': AN.replace(' hg1,', ''), 'e': AN.replace('hg1', 'hg0')}
    out.append(Scen('swap_level', same, [dv('d')] + ZZ + [v for v in AV if v.name != 'hg1'], disc=ks, faults=False))
    return out


def c28(tier='quick'):
    out = []
    CS = V('c', -300.0, 3000.0, log=False)

    def sh(n):
        return ', '.join('z%d + c' % i for i in range(n + 1))
    for n in ((1, 2, 3, 5, 8, 12, 60) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 8, 12, 16, 24)):
        src = """
from itmlogic.preparatory_subroutines.hzns import hzns
def impl(c, xi, hg0, hg1, gme, %(z)s):
    the, dl = hzns([%(n)d, xi, %(s)s], %(n)d * xi, [hg0, hg1], gme)
    return the[0], the[1], dl[0], dl[1]
def ref(c, xi, hg0, hg1, gme, %(z)s):
    the, dl = hzns([%(n)d, xi, %(z)s], %(n)d * xi, [hg0, hg1], gme)
    return the[0], the[1], dl[0], dl[1]
""" % {'z': zn(n), 's': sh(n), 'n': n}
        out.append(Scen('hzns_n%d' % n, src, [CS, XI, HG0, HG1, GME] + elev(n)))
    src = """
from itmlogic.preparatory_subroutines.zlsq1 import zlsq1
from itmlogic.preparatory_subroutines.dlthx import dlthx
def impl(a, b, c, xi, %(z)s):
    u, v = zlsq1([%(n)d, xi, %(s)s], a * xi, b * xi)
    return u - c, v - c, dlthx([%(n)d, xi, %(s)s], a * xi, b * xi)
def ref(a, b, c, xi, %(z)s):
    u, v = zlsq1([%(n)d, xi, %(z)s], a * xi, b * xi)
    return u, v, dlthx([%(n)d, xi, %(z)s], a * xi, b * xi)
"""
    for n, a, b in ((2, 0.0, 2.0), (2, 0.1, 1.9), (2, 0.4, 0.6), (3, 1.0, 2.0), (4, 0.0, 4.0), (4, 0.5, 3.5), (4, 1.2, 1.7), (4, 3.9, 4.0), (4, 0.0, 0.3), (4, 0.9, 3.1),
                    (10, 0.2, 9.7), (10, 4.9, 5.1), (30, 1.5, 28.5), (60, 0.7, 59.2), (150, 1.5, 148.2), (320, 0.2, 319.7)):
        out.append(Scen('fit_n%d(%s,%s)' % (n, a, b), src % {'z': zn(n), 's': sh(n), 'n': n}, [V('a', 0, 1), V('b', 0, 1), CS, XI] + elev(n), disc={'a': [a], 'b': [b]}))
    pn = ', '.join(v.name for v in PV)
    for n in (2, 3, 5, 9, 160):
        src = PREC + """
from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
def go(%(pn)s, zs):
    p = qlrpfl(ptprec(%(n)d, xi, zs, hg0, hg1, wn, gme, ens, zr, zi))
    return p['he'][0], p['he'][1], p['dl'][0], p['dl'][1], p['the'][0], p['the'][1], p['dh'], p['dist'], p['aref'], p['kwx']
def impl(c, %(pn)s, %(z)s): return go(%(pn)s, [%(s)s])
def ref(c, %(pn)s, %(z)s): return go(%(pn)s, [%(z)s])
""" % {'pn': pn, 'z': zn(n), 's': sh(n), 'n': n}
        vs = [CS] + PV + elev(n)

        def native(p, case, n=n):
            R = spec()
            R.ptp([n, p['xi']] + [p['z%d' % i] for i in range(n + 1)], [p['hg0'], p['hg1']], p['wn'], p['gme'], p['ens'], complex(p['zr'], p['zi']), 0, R.PLAIN)
        fb = Scen('qlrpfl_n%d' % n, src, vs, native=native, budget={'boxmode': 60 if n < 99 else 4}, faults=False)
        out.append(Scen('qlrpfl_n%d' % n, src, vs, summaries=UFR, faults=False, fallback=lambda fb=fb: fb))
    return out
