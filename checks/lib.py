"""Driver texts and input domains shared by the scenarios."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.scen import Var
from engine import nodes as N
from engine.decide import Scen

V = Var
# ---- input domains (the model's documented limits; sampling ranges stay inside them)
FMHZ = V('fmhz', 20.0, 20000.0)
WN = V('wn', 0.4193, 419.9)
HG0 = V('hg0', 0.5, 3000.0, specials=(1.0, 10.0, 100.0))
HG1 = V('hg1', 0.5, 3000.0, specials=(1.0, 10.0, 100.0))
HE0 = V('he0', 0.5, 6000.0, specials=(10.0,))
HE1 = V('he1', 0.5, 6000.0, specials=(10.0,))
GME = V('gme', 75e-9, 250e-9, log=False)
ENS = V('ens', 250.0, 400.0, log=False, specials=(301.0,))
ZR = V('zr', 0.05, 20.0)
ZI = V('zi', -10.0, 10.0, log=False)
DL0 = V('dl0', 50.0, 5e5)
DL1 = V('dl1', 50.0, 5e5)
THE0 = V('the0', -0.2, 0.2, log=False, specials=(0.0,))
THE1 = V('the1', -0.2, 0.2, log=False, specials=(0.0,))
DH = V('dh', 0.0, 3000.0, log=False, specials=(0.0, 90.0), rng=(0.0, 700.0))
DIST = V('d', 1000.0, 2e6)
EPS = V('eps', 1.5, 100.0)
SGM = V('sgm', 1e-5, 10.0)
EN0 = V('en0', 250.0, 400.0, log=False, specials=(301.0,))
ZSYS = V('zsys', 0.0, 3000.0, log=False, specials=(0.0,))
ZT = V('zt', -3.9, 3.9, log=False, specials=(0.0, 1.5, -1.0))
ZL = V('zl', -3.9, 3.9, log=False, specials=(0.0, 1.5, -1.0))
ZC = V('zc', -3.9, 3.9, log=False, specials=(0.0, 1.5, -1.0))

RECORD = '''
def record(wn, hg0, hg1, gme, ens, zr, zi, he0, he1, dl0, dl1, the0, the1, dh, mdp):
    return {'wn': wn, 'hg': [hg0, hg1], 'gme': gme, 'ens': ens, 'zgnd': complex(zr, zi), 'he': [he0, he1],
            'dl': [dl0, dl1], 'the': [the0, the1], 'dh': dh, 'mdp': mdp, 'kwx': 0, 'lvar': 5, 'mdvar': 12,
            'klim': 5, 'mdvarx': 12, 'klimx': 5}
'''
CORE = [WN, HG0, HG1, GME, ENS, ZR, ZI, HE0, HE1, DL0, DL1, THE0, THE1, DH]
CORENAMES = ', '.join(v.name for v in CORE)

# conformance holds beyond the documented limits too: the usual range is sampled most, the wide one now and then
BEYOND = {'fmhz': (1.0, 2e5), 'wn': (0.02, 4000.0), 'hg0': (0.05, 2e4), 'hg1': (0.05, 2e4), 'he0': (0.05, 3e4), 'he1': (0.05, 3e4),
          'gme': (30e-9, 400e-9), 'ens': (100.0, 500.0), 'en0': (100.0, 500.0), 'zr': (0.01, 100.0), 'zi': (-100.0, 100.0), 'dh': (0.0, 9000.0),
          'zsys': (-450.0, 9000.0), 'eps': (1.01, 200.0), 'sgm': (1e-7, 100.0), 'zt': (-6.0, 6.0), 'zl': (-6.0, 6.0), 'zc': (-6.0, 6.0),
          'the0': (-1.0, 1.0), 'the1': (-1.0, 1.0), 'dl0': (1.0, 2e6), 'dl1': (1.0, 2e6)}


def beyond(vs):
    out = []
    for v in vs:
        if v.name in BEYOND and not v.isint:
            lo, hi = BEYOND[v.name]
            v = V(v.name, min(lo, v.lo), max(hi, v.hi), log=v.log, specials=v.specials, rng=v.rng)
        out.append(v)
    return out


_spec = []


def spec():
    """the reference formulas as ordinary functions (choosing inputs only, never deciding)"""
    if not _spec:
        import importlib.util
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'itm_ref.py')
        sp = importlib.util.spec_from_file_location('itm_ref_native', p)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        _spec.append(m)
    return _spec[0]
