from .lib import *
from .c07_10 import elev
from .terrain_uf import UFL


def c01():
    out = []
    # one routine at a time, then the whole
    out.append(Scen('aknfe', '''
from itmlogic.diffraction_attenuation.aknfe import aknfe
import itm_ref
def impl(v): return aknfe(v)
def ref(v): return itm_ref.aknfe(v)
''', [V('v', -100.0, 1e6, log=False, specials=(0.0, 5.76), rng=(-2.0, 20.0))]))
    out.append(Scen('fht', '''
from itmlogic.diffraction_attenuation.fht import fht
import itm_ref
def impl(x, pk): return fht(x, pk)
def ref(x, pk): return itm_ref.fht(x, pk)
''', [V('x', 1e-3, 1e5), V('pk', 1e-8, 1.0)]))
    src = RECORD + '''
from itmlogic.diffraction_attenuation.adiff import adiff
import itm_ref
def impl(mdp, x, %(n)s):
    prop = record(%(n)s, mdp)
    prop['dls'] = [itm_ref.smooth_dl(he0, gme), itm_ref.smooth_dl(he1, gme)]
    prop['dlsa'] = prop['dls'][0] + prop['dls'][1]
    prop['dla'] = dl0 + dl1
    prop['tha'] = max(the0 + the1, -prop['dla'] * gme)
    z, prop = adiff(0, prop)
    a, prop = adiff(prop['dla'] + x, prop)
    return z, a
def ref(mdp, x, %(n)s):
    S = itm_ref.make(wn, gme, ens, complex(zr, zi), [hg0, hg1], [he0, he1], [dl0, dl1], [the0, the1], dh, mdp < 0)
    itm_ref.diff_setup(S)
    return 0, itm_ref.adiff(S, S['dla'] + x)
''' % {'n': CORENAMES}
    out.append(Scen('adiff', src, [V('x', 1.0, 3e6, rng=(100.0, 2e6))] + beyond(CORE), disc={'mdp': [-1, 1, 0]}, keyerr='skip'))
    return out


def c02():
    src = '''
from itmlogic.los_attenuation.alos import alos
import itm_ref
def impl(d, wn, he0, he1, zr, zi, dh, aed, emd, wis):
    prop = {'wn': wn, 'he': [he0, he1], 'zgnd': complex(zr, zi), 'dh': dh, 'aed': aed, 'emd': emd, 'wis': wis,
            'hg': [he0, he1], 'gme': 1 / 8497000}
    return alos(d, prop)
def ref(d, wn, he0, he1, zr, zi, dh, aed, emd, wis):
    return itm_ref.alos(d, wn, [he0, he1], dh, complex(zr, zi), aed, emd, wis)
'''
    vs = [V('d', 10.0, 4e5), WN, HE0, HE1, ZR, ZI, DH, V('aed', -200.0, 200.0, log=False), V('emd', 1e-6, 1e-2), V('wis', 1e-4, 1.0)]
    return [Scen('alos', src, beyond(vs), keyerr='skip')]


def c03():
    out = [Scen('ahd', '''
from itmlogic.scatter_attenuation.ahd import ahd
import itm_ref
def impl(td): return ahd(td)
def ref(td): return itm_ref.ahd(td)
''', [V('td', 1.0, 1e7)]),
        Scen('h0f', '''
from itmlogic.scatter_attenuation.h0f import h0f
import itm_ref
def impl(r, et): return h0f(r, et)
def ref(r, et): return itm_ref.h0f(r, et)
''', [V('r', 1e-3, 1e5), V('et', 0.0, 60.0, log=False, specials=(0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0), rng=(0.0, 7.0))])]
    src = RECORD + '''
from itmlogic.scatter_attenuation.ascat import ascat
import itm_ref
def impl(d, h0s, %(n)s):
    prop = record(%(n)s, 0)
    prop['dla'] = dl0 + dl1
    prop['tha'] = max(the0 + the1, -prop['dla'] * gme)
    ad, rr, etq = itm_ref.scat_consts(ens, [he0, he1], [dl0, dl1])
    prop['ad'], prop['rr'], prop['etq'] = ad, rr, etq
    prop['h0s'] = h0s
    prop['ascat1'] = 0
    prop = ascat(dl0 + dl1 + d, prop)
    return prop['ascat1'], prop['h0s']
def ref(d, h0s, %(n)s):
    dla = dl0 + dl1
    tha = max(the0 + the1, -dla * gme)
    ad, rr, etq = itm_ref.scat_consts(ens, [he0, he1], [dl0, dl1])
    return itm_ref.ascat(dla + d, h0s, ad, rr, etq, wn, gme, ens, [he0, he1], [the0, the1], tha)
''' % {'n': CORENAMES}
    out.append(Scen('ascat', src, [V('d', 1e3, 2e6), V('h0s', -15.0, 40.0, log=False, specials=(-15.0, 20.0, 5.0))] + beyond(CORE), keyerr='skip'))
    return out


def c04():
    src = RECORD + '''
from itmlogic.lrprop import lrprop
import itm_ref
def pick(p):
    return [p.get(k) for k in ('dlsa', 'dla', 'tha', 'aed', 'emd')]
def impl(mdp, d, %(n)s):
    prop = record(%(n)s, mdp)
    prop['dist'] = d
    prop['aref'] = 0
    prop = lrprop(0 if mdp < 0 else d, prop)
    out = pick(prop)
    if d < prop['dlsa']:
        out += [prop.get('ael'), prop.get('ak1'), prop.get('ak2'), None, None, None]
    else:
        out += [None, None, None, prop.get('ems'), prop.get('aes'), prop.get('dx')]
    return prop['aref'], prop['dist'], out
def ref(mdp, d, %(n)s):
    S = itm_ref.make(wn, gme, ens, complex(zr, zi), [hg0, hg1], [he0, he1], [dl0, dl1], [the0, the1], dh, mdp < 0)
    itm_ref.diff_line(S)
    a, ael, ak1, ak2, ems, aes, dx = itm_ref.aref_at(S, d)
    return a, d, pick(S) + [ael, ak1, ak2, ems, aes, dx]
''' % {'n': CORENAMES}
    return [Scen('lrprop', src, [V('d', 1.0, 4e6, rng=(DIST.lo, DIST.hi))] + beyond(CORE), disc={'mdp': [-1, 1]})]


def c05():
    src = '''
from itmlogic.statistics.avar import avar
from itmlogic.statistics.curv import curv
import itm_ref
def impl(klim, mdvar, zt, zl, zc, aref, dist, he0, he1, wn, dh):
    prop = {'lvar': 5, 'klim': klim, 'mdvar': mdvar, 'kwx': 0, 'wn': wn, 'he': [he0, he1], 'hg': [he0, he1], 'dist': dist, 'dh': dh,
            'aref': aref, 'mdp': 0, 'mdvarx': mdvar, 'klimx': klim}
    a, prop = avar(zt, zl, zc, prop)
    return a
def ref(klim, mdvar, zt, zl, zc, aref, dist, he0, he1, wn, dh):
    a, k, c = itm_ref.avar(zt, zl, zc, aref, dist, [he0, he1], wn, dh, klim, mdvar, 0)
    return a
'''
    vs = [V('klim', -2, 9, isint=True), V('mdvar', -1, 36, isint=True), ZT, ZL, ZC, V('aref', 0.0, 250.0, log=False, specials=(0.0,)),
          DIST, HE0, HE1, WN, DH]
    out = [Scen('avar', src, beyond(vs), disc={'klim': [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8], 'mdvar': [0, 1, 2, 3, 4, 10, 11, 12, 13, 20, 21, 22, 23, 30, 31, 32, 33, 34]})]
    out.append(Scen('curv', '''
from itmlogic.statistics.curv import curv
import itm_ref
def impl(c1, c2, x1, x2, x3, de): return curv(c1, c2, x1, x2, x3, de)
def ref(c1, c2, x1, x2, x3, de): return itm_ref.curv(c1, c2, x1, x2, x3, de)
''', [V('c1', -10.0, 20.0), V('c2', 1.0, 900.0), V('x1', 8e4, 3e6), V('x2', 9e4, 4e5), V('x3', 9e4, 2e5), V('de', 0.0, 3e6, log=False)]))
    return out


def c06():
    out = [Scen('qlrps', '''
from itmlogic.preparatory_subroutines.qlrps import qlrps
import itm_ref
def impl(ipol, fmhz, zsys, en0, eps, sgm): return qlrps(fmhz, zsys, en0, ipol, eps, sgm)
def ref(ipol, fmhz, zsys, en0, eps, sgm): return itm_ref.qlrps(fmhz, zsys, en0, ipol, eps, sgm)
''', beyond([FMHZ, ZSYS, EN0, EPS, SGM]), disc={'ipol': [0, 1]})]
    src = '''
from itmlogic.preparatory_subroutines.qlra import qlra
import itm_ref
def impl(kst0, kst1, lvar, mdvarx, klimx, hg0, hg1, dh, gme):
    prop = {'hg': [hg0, hg1], 'dh': dh, 'gme': gme, 'lvar': lvar, 'mdvar': 77, 'klim': 66, 'mdvarx': mdvarx, 'klimx': klimx, 'kwx': 0,
            'wn': 2.0, 'ens': 301, 'zgnd': complex(4, -1), 'mdp': 0}
    prop = qlra([kst0, kst1], prop)
    m = prop['mdp']
    return (prop['he'][0], prop['he'][1], prop['dl'][0], prop['dl'][1], prop['the'][0], prop['the'][1], m, prop['lvar'],
            prop['mdvar'], prop['klim'])
def ref(kst0, kst1, lvar, mdvarx, klimx, hg0, hg1, dh, gme):
    he = [itm_ref.area_he(kst0, hg0, dh), itm_ref.area_he(kst1, hg1, dh)]
    dl = [itm_ref.area_dl(he[0], dh, gme), itm_ref.area_dl(he[1], dh, gme)]
    lv, md, kl = itm_ref.levels(lvar, 77, 66, mdvarx, klimx)
    return (he[0], he[1], dl[0], dl[1], itm_ref.area_the(he[0], dl[0], dh, gme), itm_ref.area_the(he[1], dl[1], dh, gme), 1, lv, md, kl)
'''
    out.append(Scen('qlra', src, [V('lvar', 0, 5, isint=True), V('mdvarx', -1, 33, isint=True, specials=(-1, 0), rng=(-1, 4)), V('klimx', -1, 8, isint=True, specials=(-1, 0, 1), rng=(-1, 2)), *beyond([HG0, HG1, DH, GME])],
                    disc={'kst0': [-1, 0, 1, 2, 3], 'kst1': [0, 1, 2]}))
    lev = '''
from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
import itm_ref
def impl(lvar, mdvarx, klimx, xi, hg0, hg1, gme, z0, z1, z2):
    prop = {'pfl': [2, xi, z0, z1, z2], 'hg': [hg0, hg1], 'wn': 2.0, 'gme': gme, 'ens': 301, 'zgnd': complex(4, -1),
            'kwx': 0, 'lvar': lvar, 'mdvar': 77, 'klim': 66, 'mdvarx': mdvarx, 'klimx': klimx, 'mdp': -1}
    prop = qlrpfl(prop)
    return prop['lvar'], prop['mdvar'], prop['klim']
def ref(lvar, mdvarx, klimx, xi, hg0, hg1, gme, z0, z1, z2):
    return itm_ref.levels(lvar, 77, 66, mdvarx, klimx)
'''
    lv = [V('lvar', 0, 5, isint=True), V('mdvarx', -1, 33, isint=True, specials=(-1, 0), rng=(-1, 4)), V('klimx', -1, 8, isint=True, specials=(-1, 0, 1), rng=(-1, 2)), V('xi', 60.0, 5000.0), HG0, HG1, GME] + elev(2)
    out.append(Scen('qlrpfl_levels', lev, lv, summaries=UFL, refute=True, fallback=lambda: Scen('qlrpfl_levels_full', lev, lv)))
    return out
