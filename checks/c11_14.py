from .lib import *
from .c07_10 import elev, zn
from .terrain_uf import UF, UFL

# area record as the preparation leaves it
AREA = '''
from itmlogic.lrprop import lrprop
from itmlogic.preparatory_subroutines.qlra import qlra
from itmlogic.statistics.avar import avar
def arec(wn, hg0, hg1, gme, ens, zr, zi, dh, klim=5, mdvar=3):
    return {'wn': wn, 'hg': [hg0, hg1], 'gme': gme, 'ens': ens, 'zgnd': complex(zr, zi), 'dh': dh, 'kwx': 0, 'lvar': 5,
            'mdvar': 0, 'klim': 5, 'mdvarx': mdvar, 'klimx': klim, 'mdp': 1}
def prep(k0, k1, wn, hg0, hg1, gme, ens, zr, zi, dh, klim=5, mdvar=3):
    return qlra([k0, k1], arec(wn, hg0, hg1, gme, ens, zr, zi, dh, klim, mdvar))
'''
AV = [WN, HG0, HG1, GME, ENS, ZR, ZI, DH]
AN = 'wn, hg0, hg1, gme, ens, zr, zi, dh'


def dv(name):
    return V(name, 1000.0, 2e6)


def c11(tier='quick'):
    out = []
    # free horizons and effective heights: any area set-up
    src = RECORD + AREA + '''
def impl2(da, d, %(n)s):
    p = record(%(n)s, 1)
    p = lrprop(da, p)
    p = lrprop(d, p)
    return p['aref'], p['dist']
def impl3(da, db, d, %(n)s):
    p = record(%(n)s, 1)
    p = lrprop(da, p)
    p = lrprop(db, p)
    p = lrprop(d, p)
    return p['aref'], p['dist']
def repeat(da, d, %(n)s):
    p = record(%(n)s, 1)
    p = lrprop(d, p)
    p = lrprop(da, p)
    p = lrprop(d, p)
    return p['aref'], p['dist']
def ref2(da, d, %(n)s):
    p = lrprop(d, record(%(n)s, 1))
    return p['aref'], p['dist']
def ref3(da, db, d, %(n)s):
    return ref2(da, d, %(n)s)
''' % {'n': CORENAMES}
    out.append(Scen('sweep2', src, [dv('da'), dv('d')] + CORE, a='impl2', r='ref2'))
    out.append(Scen('sweep3', src, [dv('da'), dv('db'), dv('d')] + CORE, a='impl3', r='ref3'))
    out.append(Scen('repeat', src, [dv('da'), dv('d')] + CORE, a='repeat', r='ref2'))
    # with the quantile after every distance, as the runners do
    src = AREA + '''
def step(p, d, z):
    p['lvar'] = max(1, p['lvar'])
    p = lrprop(d, p)
    return avar(0, 0, z, p)
def impl(k0, k1, da, d, za, z, %(n)s):
    p = prep(k0, k1, %(n)s)
    a, p = step(p, da, za)
    a, p = step(p, d, z)
    return a, p['dist'], p['aref']
def ref(k0, k1, da, d, za, z, %(n)s):
    p = prep(k0, k1, %(n)s)
    a, p = step(p, d, z)
    return a, p['dist'], p['aref']
''' % {'n': AN}
    vs = [dv('da'), dv('d'), V('za', -3.0, 3.0, log=False), V('z', -3.0, 3.0, log=False)] + AV
    out.append(Scen('sweep_quantile', src, vs, disc={'k0': [0, 2], 'k1': [1]}))
    return out


REC5 = '''
from itmlogic.statistics.avar import avar
def rec(klim, mdvar, lvar, aref, dist, he0, he1, wn, dh):
    return {'lvar': lvar, 'klim': klim, 'mdvar': mdvar, 'kwx': 0, 'wn': wn, 'he': [he0, he1], 'hg': [he0, he1], 'dist': dist, 'dh': dh,
            'aref': aref, 'mdp': 0, 'mdvarx': mdvar, 'klimx': klim}
'''
ZZ = [V(x, -3.9, 3.9, log=False, specials=(0.0,)) for x in ('zt', 'zl', 'zc')]
ZZ2 = [V(x, -3.9, 3.9, log=False, specials=(0.0,)) for x in ('yt', 'yl', 'yc')]
SV = [V('aref', 0.0, 250.0, log=False), DIST, HE0, HE1, WN, DH]
SN = 'aref, d, he0, he1, wn, dh'


def c12(tier='quick'):
    out = []
    new = [V('aref2', 0.0, 250.0, log=False), V('d2', 1000.0, 2e6), V('ha2', 0.5, 6000.0), V('hb2', 0.5, 6000.0), V('wn2', 0.4193, 419.9), V('dh2', 0.0, 3000.0, log=False, rng=(0.0, 700.0))]
    # level, what may change with it
    lev = {1: ('aref2', 'd2', 'he0', 'he1', 'wn', 'dh'), 2: ('aref2', 'd2', 'ha2', 'hb2', 'wn', 'dh'), 3: ('aref2', 'd2', 'ha2', 'hb2', 'wn2', 'dh2'),
           4: ('aref2', 'd2', 'ha2', 'hb2', 'wn2', 'dh2'), 5: ('aref2', 'd2', 'ha2', 'hb2', 'wn2', 'dh2')}
    vs = ZZ + ZZ2 + SV + new
    an = ', '.join(v.name for v in vs)
    base = ('aref', 'd', 'he0', 'he1', 'wn', 'dh')

    def driver(l, a2):
        return REC5 + '''
def impl(klim, mdvar, klim2, mdvar2, %(an)s):
    p = rec(klim, mdvar, 5, %(sn)s)
    a, p = avar(yt, yl, yc, p)
    p['aref'], p['dist'], p['he'], p['wn'], p['dh'] = %(ar)s, %(d)s, [%(ha)s, %(hb)s], %(wn)s, %(dh)s
    p['mdvar'] = mdvar2
    p['klim'] = klim2
    p['lvar'] = %(l)d
    a, p = avar(zt, zl, zc, p)
    return a
def ref(klim, mdvar, klim2, mdvar2, %(an)s):
    a, p = avar(zt, zl, zc, rec(klim2, mdvar2, 5, %(ar)s, %(d)s, %(ha)s, %(hb)s, %(wn)s, %(dh)s))
    return a
''' % {'an': an, 'sn': SN, 'ar': a2[0], 'd': a2[1], 'ha': a2[2], 'hb': a2[3], 'wn': a2[4], 'dh': a2[5], 'l': l}
    for l in (1, 2, 3, 4, 5):
        a2 = lev[l]
        # one quantity at a time, at every level that covers it
        for i in range(6):
            if a2[i] != base[i]:
                one = base[:i] + (a2[i],) + base[i + 1:]
                out.append(Scen('level%d_only_%s' % (l, base[i]), driver(l, one), vs, disc=[{'klim': k, 'mdvar': m, 'klim2': k, 'mdvar2': m} for k, m in ((5, 0), (1, 12), (7, 3), (4, 21))]))
        if l >= 4:
            out.append(Scen('level%d_only_mode' % l, driver(l, base), vs, disc=[{'klim': 5, 'mdvar': m, 'klim2': 5, 'mdvar2': q} for m in (0, 1, 2, 3, 11, 22) for q in (0, 2, 3, 12, 20, 31)]))
        if l == 5:
            out.append(Scen('level5_only_climate', driver(l, base), vs, disc=[{'klim': k, 'mdvar': 2, 'klim2': q, 'mdvar2': 2} for k in (1, 2, 3, 4, 5, 6, 7, 0) for q in (1, 3, 5, 7, 9)]))
        src = driver(l, a2)
        kl = [1, 2, 4, 5, 7] if tier == 'quick' else [0, 1, 2, 3, 4, 5, 6, 7, 8]
        md = [0, 1, 2, 3, 12, 23] if tier == 'quick' else [0, 1, 2, 3, 10, 11, 12, 13, 20, 21, 22, 23, 31, 33]
        cases = []
        for i, k in enumerate(kl):
            for j, m in enumerate(md):
                m2 = md[(i + j + 1) % len(md)] if l >= 4 else m
                k2 = kl[(i + j + 1) % len(kl)] if l >= 5 else k
                if tier == 'quick' and (i + j) % 2:
                    continue
                cases.append({'klim': k, 'mdvar': m, 'klim2': k2, 'mdvar2': m2})
        if l >= 4:          # every ordered pair of modes once
            for m in md:
                for m2 in md:
                    if m != m2:
                        cases.append({'klim': 5, 'mdvar': m, 'klim2': 5 if l < 5 else 3, 'mdvar2': m2})
        out.append(Scen('level%d' % l, src, vs, disc=cases))
    return out


def c13(tier='quick'):
    out = []
    vs = ZZ + ZZ2 + [V(x, -3.9, 3.9, log=False) for x in ('xt', 'xl', 'xc')] + SV
    an = ', '.join(v.name for v in vs)
    src = REC5 + '''
def impl(klim, mdvar, %(an)s):
    p = rec(klim, mdvar, 5, %(sn)s)
    a, p = avar(yt, yl, yc, p)
    b, p = avar(xt, xl, xc, p)
    c, p = avar(zt, zl, zc, p)
    d, p = avar(zt, zl, zc, p)
    e, p = avar(yt, yl, yc, p)
    return a, b, c, d, e
def ref(klim, mdvar, %(an)s):
    a, p = avar(yt, yl, yc, rec(klim, mdvar, 5, %(sn)s))
    b, p = avar(xt, xl, xc, rec(klim, mdvar, 5, %(sn)s))
    c, p = avar(zt, zl, zc, rec(klim, mdvar, 5, %(sn)s))
    return a, b, c, c, a
''' % {'an': an, 'sn': SN}
    one = REC5 + '''
def impl(klim, mdvar, %(an)s):
    p = rec(klim, mdvar, 5, %(sn)s)
    o, p = avar(zt, zl, zc, p)
    a, p = avar(yt, zl, zc, p)
    b, p = avar(zt, zl, zc, p)
    c, p = avar(zt, yl, zc, p)
    d, p = avar(zt, zl, zc, p)
    e, p = avar(zt, zl, yc, p)
    return o, a, b, c, d, e
def ref(klim, mdvar, %(an)s):
    o, p = avar(zt, zl, zc, rec(klim, mdvar, 5, %(sn)s))
    a, p = avar(yt, zl, zc, rec(klim, mdvar, 5, %(sn)s))
    c, p = avar(zt, yl, zc, rec(klim, mdvar, 5, %(sn)s))
    e, p = avar(zt, zl, yc, rec(klim, mdvar, 5, %(sn)s))
    return o, a, o, c, o, e
''' % {'an': an, 'sn': SN}
    out.append(Scen('queries_one', one, vs, disc={'klim': [1, 5], 'mdvar': [0, 1, 2, 3, 12, 21, 33]}))
    out.append(Scen('queries', src, vs, disc={'klim': [0, 1, 2, 3, 4, 5, 6, 7], 'mdvar': [0, 1, 2, 3, 4, 11, 12, 13, 20, 22, 33]}))
    return out


EXP = r'([zy]\d+|xi|x2)$'


def c14(tier='quick'):
    out = []
    # area after area
    src = AREA + '''
def impl(k0, k1, ha, hb, wa, da, dha, ya, d, zt, zl, zc, %(n)s):
    p = prep(k0, k1, wa, ha, hb, gme, ens, zr, zi, dha, 6, 1)
    p = lrprop(da, p)
    a, p = avar(ya, ya, ya, p)
    q = arec(%(n)s)
    p.update(q)
    p = qlra([k1, k0], p)
    p = lrprop(d, p)
    a, p = avar(zt, zl, zc, p)
    return p['aref'], a, p['kwx'], p['he'][0], p['he'][1]
def ref(k0, k1, ha, hb, wa, da, dha, ya, d, zt, zl, zc, %(n)s):
    p = prep(k1, k0, %(n)s)
    p = lrprop(d, p)
    a, p = avar(zt, zl, zc, p)
    return p['aref'], a, p['kwx'], p['he'][0], p['he'][1]
''' % {'n': AN}
    first = [V('ha', 0.5, 3000.0), V('hb', 0.5, 3000.0), V('wa', 0.42, 419.0), dv('da'), V('dha', 0.0, 500.0, log=False), V('ya', -3.0, 3.0, log=False)]
    out.append(Scen('area_area', src, first + [dv('d')] + ZZ + AV, disc={'k0': [0, 1, 2], 'k1': [0, 2]}))
    names = AN.split(', ')
    alts = [V(v.name + '_', v.lo, v.hi, log=v.log, rng=v.rng) for v in AV]
    for i, k in enumerate(names + ['kst', 'klim', 'mdvar', 'd']):
        a1 = list(names)
        if i < len(names):
            a1[i] += '_'
        src = AREA + '''
def impl(k0, k1, %(m)s, da, ya, d, zt, zl, zc, %(n)s):
    p = prep(%(ks)s, %(a1)s, %(kl)d, %(md)d)
    p = lrprop(%(d)s, p)
    a, p = avar(ya, zl, zc, p)
    p.update(arec(%(n)s, 5, 3))
    p = qlra([k0, k1], p)
    p = lrprop(d, p)
    a, p = avar(zt, zl, zc, p)
    return p['aref'], a, p['kwx'], p['he'][0], p['he'][1]
def ref(k0, k1, %(m)s, da, ya, d, zt, zl, zc, %(n)s):
    p = lrprop(d, prep(k0, k1, %(n)s, 5, 3))
    a, p = avar(zt, zl, zc, p)
    return p['aref'], a, p['kwx'], p['he'][0], p['he'][1]
''' % {'n': AN, 'm': ', '.join(v.name for v in alts), 'a1': ', '.join(a1), 'ks': 'k1, k0' if k == 'kst' else 'k0, k1', 'kl': 3 if k == 'klim' else 5,
       'md': 12 if k == 'mdvar' else 3, 'd': 'da' if k == 'd' else 'd'}
        out.append(Scen('area_area_only_' + k, src, alts + [dv('da'), V('ya', -3.0, 3.0, log=False), dv('d')] + ZZ + AV, disc=[{'k0': 0, 'k1': 2}, {'k0': 2, 'k1': 1}]))
    n = 3
    from .c09 import PREC, PV
    zs = zn(n)
    ys = ', '.join('y%d' % i for i in range(n + 1))
    pn = ', '.join(v.name for v in PV)
    common = AREA + PREC + '''
from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
def fin(p, zt, zl, zc):
    a, p = avar(zt, zl, zc, p)
    return p['aref'], a, p['kwx'], p['dist'], p['he'][0], p['he'][1]
'''
    yv = [V('y%d' % i, -400.0, 6000.0, log=False, rng=(0.0, 800.0)) for i in range(n + 1)]
    def pnat(xs='xi', zz='z', h=('hg0', 'hg1'), env=('wn', 'gme', 'ens', 'zr', 'zi')):
        # region of a path (only to spread the boxes over the regions)
        def f(p):
            R = spec()
            w, g, e, r, i = [p[x] for x in env]
            S, dist, aref, kwx = R.ptp([n, p[xs]] + [p['%s%d' % (zz, j)] for j in range(n + 1)], [p[h[0]], p[h[1]]], w, g, e, complex(r, i), 0, R.PLAIN)
            return (dist < S['dlsa'], aref > 0)
        return f

    def anat(p, case):
        R = spec()
        S = R.area([p['ha'], p['hb']], [case.get('k0', 0), 1], p.get('dha', p.get('dh')), p['wn'], p['gme'], p['ens'], complex(p['zr'], p['zi']))
        d = p.get('da', p.get('d'))
        return (d < S['dlsa'], R.aref_at(S, d)[0] > 0)
    P1 = pnat()
    P0 = pnat(h=('ha', 'hb'))

    def anat2(p, c):
        return anat(dict(p, ha=p['hg0'], hb=p['hg1']), c)
    P2 = pnat('x2', 'y', ('ha', 'hb'))
    # point-to-point after point-to-point
    src = common + '''
def impl(x2, ha, hb, ya, zt, zl, zc, %(pn)s, %(ys)s, %(zs)s):
    p = qlrpfl(ptprec(%(n)d, x2, [%(ys)s], ha, hb, wn, gme, ens, zr, zi))
    a, p = avar(ya, ya, ya, p)
    p.update(ptprec(%(n)d, xi, [%(zs)s], hg0, hg1, wn, gme, ens, zr, zi))
    return fin(qlrpfl(p), zt, zl, zc)
def ref(x2, ha, hb, ya, zt, zl, zc, %(pn)s, %(ys)s, %(zs)s):
    return fin(qlrpfl(ptprec(%(n)d, xi, [%(zs)s], hg0, hg1, wn, gme, ens, zr, zi)), zt, zl, zc)
''' % {'pn': pn, 'ys': ys, 'zs': zs, 'n': n}
    vs = [V('x2', 60.0, 1.5e5), V('ha', 0.5, 3000.0), V('hb', 0.5, 3000.0), V('ya', -3.0, 3.0, log=False)] + ZZ + PV + yv + elev(n)
    out.append(Scen('ptp_ptp', src, vs, summaries=UF, fallback=lambda src=src, vs=vs: Scen('ptp_ptp', src, vs, budget={'boxmode': 60}, exact=EXP, native=lambda p, c: (P1(p), P2(p)))))
    # long profiles
    m = 200
    src = common + '''
def impl(x2, ha, hb, ya, zt, zl, zc, %(pn)s, %(zs)s):
    zs = [%(zs)s]
    p = qlrpfl(ptprec(%(n)d, x2, zs[::-1], ha, hb, wn, gme, ens, zr, zi))
    a, p = avar(ya, ya, ya, p)
    p.update(ptprec(%(n)d, xi, zs, hg0, hg1, wn, gme, ens, zr, zi))
    return fin(qlrpfl(p), zt, zl, zc)
def ref(x2, ha, hb, ya, zt, zl, zc, %(pn)s, %(zs)s):
    return fin(qlrpfl(ptprec(%(n)d, xi, [%(zs)s], hg0, hg1, wn, gme, ens, zr, zi)), zt, zl, zc)
''' % {'pn': pn, 'zs': zn(m), 'n': m}
    v1 = [V('x2', 60.0, 5000.0)] + vs[1:4] + ZZ + [V('xi', 60.0, 5000.0) if v.name == 'xi' else v for v in PV] + elev(m)
    out.append(Scen('ptp_ptp_long', src, v1, summaries=UF, fallback=lambda src=src, v1=v1: Scen('ptp_ptp_long', src, v1, budget={'boxmode': 3})))
    # only one group of inputs differs between the two paths
    base = {'x2': 'xi', 'ys': '[%s]' % zs, 'ha': 'hg0', 'hb': 'hg1', 'wn': 'wn', 'gme': 'gme', 'ens': 'ens', 'zr': 'zr', 'zi': 'zi'}
    alt = {'x2': 'x2', 'ys': '[%s]' % ys, 'ha': 'ha', 'hb': 'hb', 'wn': 'wn_', 'gme': 'gme_', 'ens': 'ens_', 'zr': 'zr_', 'zi': 'zi_'}
    va = [V('wn_', WN.lo, WN.hi), V('gme_', GME.lo, GME.hi, log=False), V('ens_', ENS.lo, ENS.hi, log=False), V('zr_', ZR.lo, ZR.hi), V('zi_', ZI.lo, ZI.hi, log=False)]
    vn = ', '.join(v.name for v in va)
    for k in base:
        b = dict(base)
        b[k] = alt[k]
        b.update(pn=pn, pys=ys, zs=zs, n=n, vn=vn)
        src = common + '''
def impl(x2, ha, hb, ya, zt, zl, zc, %(vn)s, %(pn)s, %(pys)s, %(zs)s):
    p = qlrpfl(ptprec(%(n)d, %(x2)s, %(ys)s, %(ha)s, %(hb)s, %(wn)s, %(gme)s, %(ens)s, %(zr)s, %(zi)s))
    a, p = avar(ya, ya, ya, p)
    p.update(ptprec(%(n)d, xi, [%(zs)s], hg0, hg1, wn, gme, ens, zr, zi))
    return fin(qlrpfl(p), zt, zl, zc)
def ref(x2, ha, hb, ya, zt, zl, zc, %(vn)s, %(pn)s, %(pys)s, %(zs)s):
    return fin(qlrpfl(ptprec(%(n)d, xi, [%(zs)s], hg0, hg1, wn, gme, ens, zr, zi)), zt, zl, zc)
''' % b
        first = pnat('x2' if k == 'x2' else 'xi', 'y' if k == 'ys' else 'z', ('ha' if k == 'ha' else 'hg0', 'hb' if k == 'hb' else 'hg1'),
                     [x + '_' if k == x else x for x in ('wn', 'gme', 'ens', 'zr', 'zi')])
        v1 = vs[:4] + ZZ + va + PV + yv + elev(n)
        out.append(Scen('ptp_ptp_only_%s' % k, src, v1, summaries=UF, fallback=lambda src=src, v1=v1, first=first: Scen('ptp_ptp', src, v1, budget={'boxmode': 30}, exact=EXP, native=lambda p, c: (P1(p), first(p)))))
    # area before point-to-point
    src = common + '''
def impl(k0, da, ha, hb, dha, ya, zt, zl, zc, %(pn)s, %(zs)s):
    p = prep(k0, 1, wn, ha, hb, gme, ens, zr, zi, dha, 3, 2)
    p = lrprop(da, p)
    a, p = avar(ya, ya, ya, p)
    p.update(ptprec(%(n)d, xi, [%(zs)s], hg0, hg1, wn, gme, ens, zr, zi))
    return fin(qlrpfl(p), zt, zl, zc)
def ref(k0, da, ha, hb, dha, ya, zt, zl, zc, %(pn)s, %(zs)s):
    return fin(qlrpfl(ptprec(%(n)d, xi, [%(zs)s], hg0, hg1, wn, gme, ens, zr, zi)), zt, zl, zc)
''' % {'pn': pn, 'zs': zs, 'n': n}
    vs = [dv('da'), V('ha', 0.5, 3000.0), V('hb', 0.5, 3000.0), V('dha', 0.0, 500.0, log=False), V('ya', -3.0, 3.0, log=False)] + ZZ + PV + elev(n)
    out.append(Scen('area_ptp', src, vs, disc={'k0': [0, 2]}, summaries=UF, fallback=lambda src=src, vs=vs: Scen('area_ptp', src, vs, budget={'boxmode': 60}, exact=EXP, native=lambda p, c: (P1(p), anat(p, c)))))
    # point-to-point before area
    src = common + '''
def impl(k0, k1, d, dh, ha, hb, ya, zt, zl, zc, %(pn)s, %(zs)s):
    p = qlrpfl(ptprec(%(n)d, xi, [%(zs)s], ha, hb, wn, gme, ens, zr, zi))
    a, p = avar(ya, ya, ya, p)
    p.update(arec(%(an)s))
    p = qlra([k0, k1], p)
    p = lrprop(d, p)
    return fin(p, zt, zl, zc)
def ref(k0, k1, d, dh, ha, hb, ya, zt, zl, zc, %(pn)s, %(zs)s):
    p = lrprop(d, prep(k0, k1, %(an)s))
    return fin(p, zt, zl, zc)
''' % {'pn': pn, 'zs': zs, 'n': n, 'an': AN}
    vs = [dv('d'), DH, V('ha', 0.5, 3000.0), V('hb', 0.5, 3000.0), V('ya', -3.0, 3.0, log=False)] + ZZ + PV + elev(n)
    out.append(Scen('ptp_area', src, vs, disc={'k0': [0, 2], 'k1': [1]}, summaries=UF, fallback=lambda src=src, vs=vs: Scen('ptp_area', src, vs, budget={'boxmode': 60}, exact=EXP, native=lambda p, c: (P0(p), anat2(p, c)))))
    return out
