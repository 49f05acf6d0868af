from .lib import *
from .c07_10 import elev, zn, XI
from .c09 import PREC, PV, XIP
from .c11_14 import AREA, AV, AN, REC5, ZZ, SV, SN, dv
from .terrain_uf import UF, UFL

K0 = V('k', 0, 4, isint=True)
KS = [0, 1, 2, 3, 4]
# ranges reach outside the documented limits on purpose: warnings judge them
WIDE = [V('wn', 0.05, 3000.0, specials=(0.838, 210.0, 0.419, 420.0)),
        V('hg0', 0.05, 20000.0, specials=(1.0, 1000.0, 0.5, 3000.0)),
        V('hg1', 0.05, 20000.0, specials=(1.0, 1000.0, 0.5, 3000.0)),
        V('gme', 20e-9, 400e-9, log=False, specials=(75e-9, 250e-9)),
        V('ens', 150.0, 500.0, log=False, specials=(250.0, 400.0)),
        V('zr', 0.05, 20.0), V('zi', -10.0, 10.0, log=False),
        V('he0', 0.5, 6000.0), V('he1', 0.5, 6000.0), V('dl0', 50.0, 5e5), V('dl1', 50.0, 5e5),
        V('the0', -0.5, 0.5, log=False, specials=(0.2, -0.2, 0.0)), V('the1', -0.5, 0.5, log=False, specials=(0.2, -0.2, 0.0)), DH]
WD = V('d', 100.0, 5e6, specials=(1000.0, 1e6, 2e6))

def c15(tier='quick'):
    out = []
    src = RECORD + AREA + '''
def go(mdp, k, d, %(n)s):
    p = record(%(n)s, mdp)
    p['dist'] = d
    p['aref'] = 0
    p['kwx'] = k
    p = lrprop(d, p)
    return p['kwx']
def impl(mdp, k, d, %(n)s):
    return go(mdp, k, d, %(n)s)
def ref(mdp, k, d, %(n)s):
    return max(k, go(mdp, k, d, %(n)s))
def later(k, da, d, %(n)s):
    p = record(%(n)s, 1)
    p = lrprop(da, p)
    p['kwx'] = k
    p = lrprop(d, p)
    return p['kwx']
def later_ref(k, da, d, %(n)s):
    return max(k, later(k, da, d, %(n)s))
''' % {'n': CORENAMES}
    out.append(Scen('lrprop', src, [K0, WD] + WIDE, disc={'mdp': [-1, 1], 'k': KS}, faults=False))
    out.append(Scen('lrprop_continued', src, [K0, V('da', 100.0, 5e6), WD] + WIDE, a='later', r='later_ref', disc={'k': KS}, faults=False))
    src = REC5 + '''
def go(klim, mdvar, lvar, k, zt, zl, zc, %(sn)s):
    p = rec(klim, mdvar, 5, %(sn)s)
    p['kwx'] = k
    if lvar < 5:
        a, p = avar(0, 0, 0, rec(klim, mdvar, 5, %(sn)s))
        p['kwx'] = k
        p['lvar'] = lvar
    a, p = avar(zt, zl, zc, p)
    return p['kwx']
def impl(klim, mdvar, lvar, k, zt, zl, zc, %(sn)s):
    return go(klim, mdvar, lvar, k, zt, zl, zc, %(sn)s)
def ref(klim, mdvar, lvar, k, zt, zl, zc, %(sn)s):
    return max(k, go(klim, mdvar, lvar, k, zt, zl, zc, %(sn)s))
''' % {'sn': SN}
    out.append(Scen('avar', src, [K0] + ZZ + SV, disc={'klim': [0, 5, 8, -3], 'mdvar': [0, 3, 4, 9, 12, 14, 34], 'lvar': [5, 4, 1, 0], 'k': KS}, faults=False))
    src = AREA + '''
def go(k0, k1, k, %(n)s):
    p = arec(%(n)s)
    p['kwx'] = k
    p = qlra([k0, k1], p)
    return p['kwx']
def impl(k0, k1, k, %(n)s): return go(k0, k1, k, %(n)s)
def ref(k0, k1, k, %(n)s): return max(k, go(k0, k1, k, %(n)s))
''' % {'n': AN}
    out.append(Scen('qlra', src, [K0] + AV, disc={'k0': [-1, 0, 1, 2, 3], 'k1': [0, 2], 'k': KS}, faults=False))
    n = 3
    pn = ', '.join(v.name for v in PV)
    src = PREC + '''
from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
def go(k, %(pn)s, %(z)s):
    p = ptprec(%(n)d, xi, [%(z)s], hg0, hg1, wn, gme, ens, zr, zi)
    p['kwx'] = k
    return qlrpfl(p)['kwx']
def impl(k, %(pn)s, %(z)s): return go(k, %(pn)s, %(z)s)
def ref(k, %(pn)s, %(z)s): return max(k, go(k, %(pn)s, %(z)s))
''' % {'pn': pn, 'z': zn(n), 'n': n}
    vs = [K0] + PV + elev(n)
    out.append(Scen('qlrpfl', src, vs, disc={'k': KS}, summaries=UF, faults=False, fallback=lambda: Scen('qlrpfl', src, vs, disc={'k': KS}, budget={'boxmode': 60}, faults=False)))
    return out


def c16(tier='quick'):
    out = []
    src = RECORD + '''
from itmlogic.lrprop import lrprop
import itm_ref
def impl(mdp, k, d, %(n)s):
    p = record(%(n)s, mdp)
    p['dist'] = d
    p['aref'] = 0
    p['kwx'] = k
    return lrprop(d, p)['kwx']
def ref(mdp, k, d, %(n)s):
    S = itm_ref.make(wn, gme, ens, complex(zr, zi), [hg0, hg1], [he0, he1], [dl0, dl1], [the0, the1], dh, mdp < 0)
    return itm_ref.warn(S, d, k)
def later(da, d, %(n)s):
    p = lrprop(da, record(%(n)s, 1))
    p['kwx'] = 0
    return lrprop(d, p)['kwx']
def later_ref(da, d, %(n)s):
    return itm_ref.warn_distance([he0, he1], d, 0)
''' % {'n': CORENAMES}
    out.append(Scen('lrprop', src, [V('k', 0, 4, isint=True), WD] + WIDE, disc={'mdp': [-1, 1], 'k': [0, 1, 2, 3]}, faults=False))
    out.append(Scen('distance_only', src, [V('da', 1000.0, 1e6), WD] + WIDE, a='later', r='later_ref', faults=False))
    src = REC5 + '''
import itm_ref
def impl(klim, mdvar, k, zt, zl, zc, %(sn)s):
    p = rec(klim, mdvar, 5, %(sn)s)
    p['kwx'] = k
    a, p = avar(zt, zl, zc, p)
    return p['kwx'], p['klim']
def ref(klim, mdvar, k, zt, zl, zc, %(sn)s):
    a, kw, kl = itm_ref.avar(zt, zl, zc, aref, d, [he0, he1], wn, dh, klim, mdvar, k)
    return kw, kl
''' % {'sn': SN}
    zz = [V(x, -3.9, 3.9, log=False, specials=(0.0, 3.1, -3.1)) for x in ('zt', 'zl', 'zc')]
    out.append(Scen('avar', src, zz + SV, disc={'klim': [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 99], 'mdvar': [-1, 0, 1, 2, 3, 4, 9, 10, 13, 14, 20, 23, 24, 30, 33, 34, 99], 'k': [0, 1, 3]}, faults=False))
    src = AREA + '''
import itm_ref
def impl(k0, k1, d, %(n)s):
    p = prep(k0, k1, %(n)s)
    return lrprop(d, p)['kwx']
def ref(k0, k1, d, %(n)s):
    S = itm_ref.area([hg0, hg1], [k0, k1], dh, wn, gme, ens, complex(zr, zi))
    return itm_ref.warn(S, d, 0)
''' % {'n': AN}
    out.append(Scen('area', src, [WD] + AV, disc={'k0': [0, 1, 2], 'k1': [0, 2]}, faults=False))
    return out


def c17(tier='quick'):
    out = []
    n = 3
    pn = ', '.join(v.name for v in PV)
    inputs = "[p['hg'][0], p['hg'][1], p['wn'], p['gme'], p['ens'], p['zgnd'], p['mdvarx'], p['klimx']]"
    src = AREA + '''
def impl(k0, k1, d, zt, zl, zc, %(n)s):
    p = arec(%(n)s)
    p['fmhz'], p['ipol'], p['eps'], p['sgm'], p['ens0'] = 5, 1, 15, 7, 301
    kst = [k0, k1]
    p = qlra(kst, p)
    p = lrprop(d, p)
    a, p = avar(zt, zl, zc, p)
    p['lvar'] = 1
    p = lrprop(2 * d, p)
    a, p = avar(zt, zl, zc, p)
    return %(i)s, p['dh'], kst, p['fmhz'], p['ipol'], p['eps'], p['sgm'], p['ens0'], len(p['hg'])
def ref(k0, k1, d, zt, zl, zc, %(n)s):
    p = arec(%(n)s)
    return %(i)s, dh, [k0, k1], 5, 1, 15, 7, 301, 2
''' % {'n': AN, 'i': inputs}
    out.append(Scen('area', src, [V('d', 1000.0, 1e6)] + ZZ + AV, disc={'k0': [-1, 0, 1, 2, 3], 'k1': [0, 2, 3]}))
    src = PREC + '''
from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
from itmlogic.statistics.avar import avar
def impl(zt, zl, zc, %(pn)s, %(z)s):
    zs = [%(z)s]
    p = ptprec(%(n)d, xi, zs, hg0, hg1, wn, gme, ens, zr, zi)
    p['fmhz'], p['ipol'], p['eps'], p['sgm'], p['ens0'] = 5, 1, 15, 7, 301
    p = qlrpfl(p)
    a, p = avar(zt, zl, zc, p)
    return %(i)s, p['pfl'], p['fmhz'], p['ipol'], p['eps'], p['sgm'], p['ens0'], len(p['hg'])
def ref(zt, zl, zc, %(pn)s, %(z)s):
    p = ptprec(%(n)d, xi, [%(z)s], hg0, hg1, wn, gme, ens, zr, zi)
    return %(i)s, p['pfl'], 5, 1, 15, 7, 301, 2
'''
    for n in (2, 3, 5, 320):
        s = src % {'pn': pn, 'z': zn(n), 'n': n, 'i': inputs}
        vs = ZZ + PV + elev(n)
        fb = lambda s=s, vs=vs, n=n: Scen('ptp_n%d' % n, s, vs, budget={'boxmode': 60 if n < 99 else 3})
        out.append(Scen('ptp_n%d' % n, s, vs, summaries=UF, fallback=fb))
    # the terrain routines themselves
    for n in (2, 4, 60, 260):
        src = '''
from itmlogic.preparatory_subroutines.hzns import hzns
def impl(xi, hg0, hg1, gme, %(z)s):
    pfl = [%(n)d, xi, %(z)s]
    hg = [hg0, hg1]
    hzns(pfl, %(n)d * xi, hg, gme)
    return pfl, hg
def ref(xi, hg0, hg1, gme, %(z)s):
    return [%(n)d, xi, %(z)s], [hg0, hg1]
''' % {'z': zn(n), 'n': n}
        out.append(Scen('hzns_n%d' % n, src, [XI, HG0, HG1, GME] + elev(n)))
    for n, a, b in ((4, 0.5, 3.5), (4, 1.2, 1.7), (10, 0.2, 9.7), (3, 0.0, 1.5), (60, 1.5, 58.7), (320, 0.2, 319.7)):
        src = '''
from itmlogic.preparatory_subroutines.zlsq1 import zlsq1
from itmlogic.preparatory_subroutines.dlthx import dlthx
def impl(a, b, xi, %(z)s):
    pfl = [%(n)d, xi, %(z)s]
    zlsq1(pfl, a * xi, b * xi)
    dlthx(pfl, a * xi, b * xi)
    return pfl
def ref(a, b, xi, %(z)s):
    return [%(n)d, xi, %(z)s]
''' % {'z': zn(n), 'n': n}
        out.append(Scen('fit_n%d(%s,%s)' % (n, a, b), src, [V('a', 0, 1), V('b', 0, 1), XI] + elev(n), disc={'a': [a], 'b': [b]}))
    for m in (1, 2, 4, 7, 12):
        nm = ', '.join('v%d' % i for i in range(m))
        src = '''
from itmlogic.misc.qtile import qtile
from itmlogic.misc.qerfi import qerfi
def impl(r, %(v)s):
    v = [%(v)s]
    qtile(v, r)
    q = [%(v)s]
    qerfi(q)
    return v, q
def ref(r, %(v)s):
    return [%(v)s], [%(v)s]
''' % {'v': nm}
        out.append(Scen('lists%d' % m, src, [V('v%d' % i, 0.001, 0.999, log=False) for i in range(m)], disc={'r': sorted({0, m // 2, m - 1})}))
    # attenuation routines leave the geometry alone
    src = RECORD + '''
from itmlogic.lrprop import lrprop
from itmlogic.diffraction_attenuation.adiff import adiff
from itmlogic.los_attenuation.alos import alos
from itmlogic.scatter_attenuation.ascat import ascat
def geo(p):
    return [p['wn'], p['gme'], p['ens'], p['zgnd'], p['dh'], p['hg'][0], p['hg'][1], p['he'][0], p['he'][1], p['dl'][0], p['dl'][1], p['the'][0], p['the'][1],
            len(p['hg']), len(p['he']), len(p['dl']), len(p['the'])]
def impl(mdp, d, %(n)s):
    p = record(%(n)s, mdp)
    p['dist'] = d
    p['aref'] = 0
    p = lrprop(d, p)
    z, p = adiff(0, p)
    a, p = adiff(d + dl0 + dl1, p)
    alos(d, p)
    return geo(p)
def ref(mdp, d, %(n)s):
    return geo(record(%(n)s, mdp))
''' % {'n': CORENAMES}
    out.append(Scen('lrprop', src, [DIST] + CORE, disc={'mdp': [-1, 1]}, faults=False))
    return out


def c18(tier='quick'):
    out = []

    def two(name, imports, params, call, args, alts, vs, disc=None, fallback=None, **kw):
        """call(args) after other calls equals call(args) alone, and twice in a row; the other calls differ in all arguments or in exactly one"""
        variants = [('all', [b if b is not None else a for a, b in zip(args, alts)])]
        if sum(b is not None for b in alts) > 1:
            variants += [('arg%d' % i, args[:i] + [alts[i]] + args[i + 1:]) for i in range(len(args)) if alts[i] is not None]
        for v, other in variants:
            src = imports + '''
def impl(%(p)s):
    r_x = %(a)s
    r_1 = %(b)s
    r_2 = %(b)s
    return r_1, r_2
def ref(%(p)s):
    r_1 = %(b)s
    return r_1, r_1
def back(%(p)s):
    r_x = %(a)s
    r_1 = %(b)s
    return %(a)s
def other(%(p)s):
    return %(a)s
def many(%(p)s):
    for r_i in range(%(m)d):
        r_x = %(a)s
        r_y = %(b)s
    return %(a)s, %(b)s
def rmany(%(p)s):
    return %(a)s, %(b)s
''' % {'p': params, 'a': call % tuple(other), 'b': call % tuple(args), 'm': 3 if fallback or name == 'area' else 40}
            sc = Scen(name + '_' + v, src, vs, disc=disc, **kw)
            if fallback:
                sc.fallback = lambda sc=sc: Scen(sc.name, sc.src, sc.vars_, budget={'boxmode': 40}, faults=False)
            out.append(sc)
            if v == 'all':
                sc = Scen(name + '_back', src, vs, disc=disc, a='back', r='other', **kw)
                if fallback:
                    sc.fallback = lambda sc=sc: Scen(sc.name, sc.src, sc.vars_, a='back', r='other', budget={'boxmode': 40}, faults=False)
                out.append(sc)
                out.append(Scen(name + '_many', src, vs, disc=(disc[:1] if isinstance(disc, list) else disc and {q: x[:1] for q, x in disc.items()}), a='many', r='rmany', **kw))
    I = 'from itmlogic.%s import %s\n'
    P = 'preparatory_subroutines.'

    def W(*names, of):
        return [V(x, of.lo, of.hi, log=of.log, rng=of.rng) for x in names]
    two('qlrps', I % (P + 'qlrps', 'qlrps'), 'ipol, f, g, zs, zs2, en, en2, eps, eps2, sgm, sgm2', 'qlrps(%s, %s, %s, %s, %s, %s)',
        ['f', 'zs', 'en', 'ipol', 'eps', 'sgm'], ['g', 'zs2', 'en2', '1 - ipol', 'eps2', 'sgm2'],
        W('f', 'g', of=FMHZ) + W('zs', 'zs2', of=ZSYS) + W('en', 'en2', of=EN0) + W('eps', 'eps2', of=EPS) + W('sgm', 'sgm2', of=SGM), {'ipol': [0, 1]})
    two('aknfe', I % ('diffraction_attenuation.aknfe', 'aknfe'), 'a, b', 'aknfe(%s)', ['b'], ['a'], [V(x, -100.0, 1e6, log=False, rng=(-2.0, 20.0)) for x in 'ab'])
    two('fht', I % ('diffraction_attenuation.fht', 'fht'), 'a, b, p, q', 'fht(%s, %s)', ['b', 'q'], ['a', 'p'], [V('a', 1e-3, 1e5), V('b', 1e-3, 1e5), V('p', 1e-8, 1.0), V('q', 1e-8, 1.0)])
    two('ahd', I % ('scatter_attenuation.ahd', 'ahd'), 'a, b', 'ahd(%s)', ['b'], ['a'], [V('a', 1.0, 1e7), V('b', 1.0, 1e7)])
    two('h0f', I % ('scatter_attenuation.h0f', 'h0f'), 'a, b, p, q', 'h0f(%s, %s)', ['b', 'q'], ['a', 'p'],
        [V('a', 1e-3, 1e5), V('b', 1e-3, 1e5), V('p', 0.0, 60.0, log=False, rng=(0., 7.)), V('q', 0.0, 60.0, log=False, rng=(0., 7.))])
    two('qerf', I % ('misc.qerf', 'qerf'), 'a, b', 'qerf(%s)', ['b'], ['a'], [V(x, -50.0, 50.0, log=False, rng=(-12., 12.)) for x in 'ab'])
    two('qerfi', I % ('misc.qerfi', 'qerfi'), 'a, b, c, d', 'qerfi([%s, %s])', ['b', 'c'], ['a', 'd'], [V(x, 0.0, 1.0, log=False) for x in 'abcd'])
    two('qtile', I % ('misc.qtile', 'qtile'), 'r, a, b, c, d, e', 'qtile([a, b, c, %s], %s)', ['d', 'r'], ['e', '3 - r'], [V(x, -9.0, 9.0, log=False) for x in 'abcde'], {'r': [0, 1, 2, 3]})
    cv = [V('a', -10.0, 20.0), V('b', 1.0, 900.0), V('c', 8e4, 3e6), V('d', 9e4, 4e5), V('e', 9e4, 2e5), V('x', 0.0, 3e6, log=False)]
    cv += [V(v.name + '2', v.lo, v.hi, log=v.log) for v in cv]
    two('curv', I % ('statistics.curv', 'curv'), ', '.join(v.name for v in cv), 'curv(%s, %s, %s, %s, %s, %s)', list('abcdex'), [x + '2' for x in 'abcdex'], cv)
    n = 4
    ys = ', '.join('y%d' % i for i in range(n + 1))
    yv = [V('y%d' % i, -400.0, 6000.0, log=False, rng=(0.0, 800.0)) for i in range(n + 1)]
    two('hzns', I % (P + 'hzns', 'hzns'), 'xi, x2, hg0, hg1, ha, hb, gme, gm2, %s, %s' % (ys, zn(n)), 'hzns([%d, %%s, %%s], %d * %%s, [%%s, %%s], %%s)' % (n, n),
        ['xi', zn(n), 'xi', 'hg0', 'hg1', 'gme'], ['x2', ys, 'x2', 'ha', 'hb', 'gm2'], W('xi', 'x2', of=XI) + [HG0, HG1] + W('ha', 'hb', of=HG0) + W('gme', 'gm2', of=GME) + yv + elev(n))
    for nm in ('zlsq1', 'dlthx'):
        two(nm, I % (P + nm, nm), 'a, b, xi, x2, %s, %s' % (ys, zn(n)), nm + '([%d, xi, %%s], %%s * xi, %%s * xi)' % n, [zn(n), 'a', 'b'], [ys, '(a - 0.1)', '(b - 0.9)'],
            [V('a', 0, 1), V('b', 0, 1), XI, V('x2', XI.lo, XI.hi)] + yv + elev(n), {'a': [0.3], 'b': [3.4, 4.0]})
    n = 8
    z8 = zn(n)
    sizes = (5, 2, 8, 3, 6, 4)
    tmpl = '''
Z = lambda m, *z: [m, z[0]] + list(z[1:m + 2])
def impl(xi, hg0, hg1, gme, %(z)s):
    out = []
    for m in %(o)s:
        out.append(%(call)s)
    return out
def ref(xi, hg0, hg1, gme, %(z)s):
    m = %(m)d
    return %(call)s
def pick(xi, hg0, hg1, gme, %(z)s):
    return impl(xi, hg0, hg1, gme, %(z)s)[-1]
'''
    for nm, mod, call in (('hzns', P + 'hzns', 'hzns(Z(m, xi, %s), m * xi, [hg0, hg1], gme)' % z8),
                          ('zlsq1', P + 'zlsq1', 'zlsq1(Z(m, xi, %s), 0.2 * xi, (m - 0.6) * xi)' % z8),
                          ('dlthx', P + 'dlthx', 'dlthx(Z(m, xi, %s), 0.2 * xi, (m - 0.1) * xi)' % z8),
                          ('qtile', 'misc.qtile', 'qtile(Z(m, xi, %s)[2:], m // 2)' % z8),
                          ('qerfi', 'misc.qerfi', 'qerfi([(z0 + 400 + 10 * i) / 9000 for i in range(m)])')):
        for k in range(3):
            o = sizes[k:] + sizes[:k]
            src = I % (mod, nm) + tmpl % {'z': z8, 'o': o, 'm': o[-1], 'call': call}
            out.append(Scen('%s_sizes_%d' % (nm, k), src, [XI, HG0, HG1, GME] + elev(n), a='pick', r='ref'))
    # long profiles before and after
    n = 380
    zl_ = zn(n)
    for nm, mod, call in (('hzns', P + 'hzns', 'hzns([m, xi] + [%s][:m + 1], m * xi, [hg0, hg1], gme)' % zl_),
                          ('zlsq1', P + 'zlsq1', 'zlsq1([m, xi] + [%s][:m + 1], 0.2 * xi, (m - 0.6) * xi)' % zl_),
                          ('dlthx', P + 'dlthx', 'dlthx([m, xi] + [%s][:m + 1], 0.2 * xi, (m - 0.1) * xi)' % zl_)):
        for o in ((380, 3, 260), (260, 380)):
            if nm == 'hzns':
                o = tuple(max(2, x // 10) for x in o)
            src = I % (mod, nm) + tmpl % {'z': zl_, 'o': o, 'm': o[-1], 'call': call}
            out.append(Scen('%s_long_%d' % (nm, o[-1]), src, [XI, HG0, HG1, GME] + elev(n), a='pick', r='ref', faults=False))
    imp = AREA + '''
def one(k0, k1, d, zt, zl, zc, %s, klim, mdvar):
    p = lrprop(d, prep(k0, k1, %s, klim, mdvar))
    a, p = avar(zt, zl, zc, p)
    return p['aref'], a, p['kwx']
''' % (AN, AN)
    av = W('d', 'd2', of=dv('d')) + W('zt', 'zl', 'zc', 'yt', 'yl', 'yc', of=V('z', -3.0, 3.0, log=False)) + AV + [V(v.name + '_', v.lo, v.hi, log=v.log, rng=v.rng) for v in AV]
    an = AN.split(', ')
    two('area', imp, 'k0, k1, ' + ', '.join(v.name for v in av), 'one(%s)' % ', '.join(['%s'] * 16),
        ['k0', 'k1', 'd', 'zt', 'zl', 'zc'] + an + ['6', '1'], ['2 - k0', '0', 'd2', 'yt', 'yl', 'yc'] + [x + '_' for x in an] + ['1', '12'], av, {'k0': [0, 2], 'k1': [1]}, faults=False)
    n = 3
    ys = ', '.join('y%d' % i for i in range(n + 1))
    yv = [V('y%d' % i, -400.0, 6000.0, log=False, rng=(0.0, 800.0)) for i in range(n + 1)]
    pn = [v.name for v in PV]
    imp = PREC + '''
from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
from itmlogic.statistics.avar import avar
def one(zt, zs, %s):
    p = qlrpfl(ptprec(%d, xi, zs, hg0, hg1, wn, gme, ens, zr, zi))
    a, p = avar(zt, 0.3, zt, p)
    return p['aref'], a, p['kwx'], p['he'], p['dh']
''' % (', '.join(pn), n)
    vs = W('zt', 'yt', of=V('z', -3.0, 3.0, log=False)) + PV + [V(v.name + '_', v.lo, v.hi, log=v.log, rng=v.rng) for v in PV] + yv + elev(n)
    two('ptp', imp, ', '.join(v.name for v in vs), 'one(%s, [%s], ' + ', '.join(['%s'] * len(pn)) + ')', ['zt', zn(n)] + pn, ['yt', ys] + [x + '_' for x in pn],
        vs, summaries=UF, faults=False, fallback=True)
    return out
