from .lib import *
from .c07_10 import elev, zn
from .terrain_uf import UF, UFL

XIP = V('xi', 60.0, 1.5e5)
PREC = '''
def ptprec(n, xi, zs, hg0, hg1, wn, gme, ens, zr, zi):
    return {'pfl': [n, xi] + zs, 'hg': [hg0, hg1], 'wn': wn, 'gme': gme, 'ens': ens, 'zgnd': complex(zr, zi),
            'kwx': 0, 'lvar': 5, 'mdvar': 12, 'klim': 5, 'mdvarx': 12, 'klimx': 5, 'mdp': -1}
'''
SRC = PREC + '''
from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
from itmlogic.preparatory_subroutines.hzns import hzns
from itmlogic.preparatory_subroutines.zlsq1 import zlsq1
from itmlogic.preparatory_subroutines.dlthx import dlthx
from itmlogic.lrprop import lrprop
import itm_ref
def H(pfl, dist, hg, gme):
    the, dl = hzns(pfl, dist, hg, gme)
    return the[0], the[1], dl[0], dl[1]
def impl(xi, hg0, hg1, wn, gme, ens, zr, zi, %(z)s):
    p = qlrpfl(ptprec(%(n)d, xi, [%(z)s], hg0, hg1, wn, gme, ens, zr, zi))
    return (p['dist'], p['he'][0], p['he'][1], p['dl'][0], p['dl'][1], p['the'][0], p['the'][1], p['dh'], p['aref'], p['kwx'], p['lvar'])
def tup(S, dist, aref, kwx):
    return (dist, S['he'][0], S['he'][1], S['dl'][0], S['dl'][1], S['the'][0], S['the'][1], S['dh'], aref, kwx, 5)
def refu(xi, hg0, hg1, wn, gme, ens, zr, zi, %(z)s):
    dist, he, dl, the, dh = itm_ref.qlrpfl_setup([%(n)d, xi, %(z)s], [hg0, hg1], gme, (H, zlsq1, dlthx))
    p = {'wn': wn, 'gme': gme, 'ens': ens, 'zgnd': complex(zr, zi), 'hg': [hg0, hg1], 'he': he, 'dl': dl, 'the': the, 'dh': dh, 'mdp': -1,
         'dist': dist, 'kwx': 0}
    p = lrprop(0, p)
    return (dist, he[0], he[1], dl[0], dl[1], the[0], the[1], dh, p['aref'], p['kwx'], 5)
def ref(xi, hg0, hg1, wn, gme, ens, zr, zi, %(z)s):
    S, dist, aref, kwx = itm_ref.ptp([%(n)d, xi, %(z)s], [hg0, hg1], wn, gme, ens, complex(zr, zi), 0, itm_ref.PLAIN)
    return tup(S, dist, aref, kwx)
'''
def pv(n):
    return [V('xi', 60.0, 2e6 / n)] + PV[1:]


PV = [XIP, HG0, HG1, WN, GME, ENS, ZR, ZI]




def full(n, profile_rng=None):
    """box-by-box interpretation against the whole reference"""
    def native(p, case):
        R = spec()
        pfl = [n, p['xi']] + [p['z%d' % i] for i in range(n + 1)]
        R.ptp(pfl, [p['hg0'], p['hg1']], p['wn'], p['gme'], p['ens'], complex(p['zr'], p['zi']), 0, R.PLAIN)
    return Scen('qlrpfl_full_n%d' % n, SRC % {'z': zn(n), 'n': n}, pv(n) + elev(n), native=native, budget={'boxmode': 240 if n < 20 else 40 if n < 100 else 12},
                exact=r'(z\d+|xi)$', max_steps=2000000, limit=2000000)


def c09(tier='quick'):
    out = []
    for n in (2, 3, 5, 9, 12, 40, 150, 600):
        out.append(Scen('qlrpfl_n%d' % n, SRC % {'z': zn(n), 'n': n}, pv(n) + elev(n), r='refu', summaries=UFL, fallback=lambda n=n: full(n), always=n in (3, 9, 40, 150, 600)))
    return out
