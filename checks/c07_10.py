from .lib import *


def elev(n, lo=-400.0, hi=6000.0, rng=(0.0, 800.0)):
    return [V('z%d' % i, lo, hi, log=False, specials=(0.0, 100.0), rng=rng) for i in range(n + 1)]


XI = V('xi', 10.0, 2000.0)


def xi_for(n):
    return V('xi', 10.0, max(2000.0, 2e6 / n))


def zn(n):
    return ', '.join('z%d' % i for i in range(n + 1))


def c07(tier='quick'):
    out = []
    for n in ([1, 2, 3, 4, 5, 6, 8, 12, 24, 50, 100, 160, 300, 600] if tier == 'quick' else list(range(1, 41)) + [50, 64, 100, 128, 160, 200, 256, 300, 400, 500, 598, 599, 600]):
        src = '''
from itmlogic.preparatory_subroutines.hzns import hzns
import itm_ref
def impl(xi, hg0, hg1, gme, %(z)s):
    pfl = [%(n)d, xi, %(z)s]
    the, dl = hzns(pfl, %(n)d * xi, [hg0, hg1], gme)
    return the[0], the[1], dl[0], dl[1]
def ref(xi, hg0, hg1, gme, %(z)s):
    return itm_ref.hzns([%(n)d, xi, %(z)s], %(n)d * xi, [hg0, hg1], gme)
''' % {'z': zn(n), 'n': n}
        kw = {'budget': {'n': 192, 'chunk': 64, 'atoms': 8, 'conds': 4, 'pairs': 8, 'secs': 50}, 'limit': 4000000, 'time_limit': 240, 'weight': n} if n > 40 else {}
        out.append(Scen('hzns_n%d' % n, src, [xi_for(n)] + beyond([HG0, HG1, GME]) + elev(n), **kw))
    return out


ZSRC = """
from itmlogic.preparatory_subroutines.zlsq1 import zlsq1
import itm_ref
def impl(a, b, xi, %(z)s):
    return zlsq1([%(n)d, xi, %(z)s], a * xi, b * xi)
def ref(a, b, xi, %(z)s):
    return itm_ref.zlsq1([%(n)d, xi, %(z)s], a * xi, b * xi)
"""


def c08(tier='quick'):
    out = []
    # every window: both ends at a profile point or inside an interval
    for n in ([1, 2, 3, 4, 5] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7, 8, 9, 10]):
        ends = []
        for i in range(n + 1):
            ends.append((float(i), float(i)))
            if i < n:
                ends.append((i + 1e-6, i + 1 - 1e-6))
        for p in ends:
            for q in ends:
                if q[0] < p[0] or (q[0] == p[0] and (q[0] == q[1]) != (p[0] == p[1])):
                    continue
                vs = []
                case = {}
                for nm, (l, h) in (('a', p), ('b', q)):
                    if l == h:
                        case[nm] = l
                    vs.append(V(nm, l, h if h > l else l + 1, log=False))
                out.append(Scen('zlsq1_n%d[%s,%s]' % (n, p[0], q[0]), ZSRC % {'z': zn(n), 'n': n}, vs + [XI] + elev(n),
                                disc=[case] if case else None))
    # a long profile: a few windows
    for n, a, b in ((20, 1.5, 18.25), (20, 0.0, 20.0), (35, 0.0, 34.0), (50, 10.0, 10.5), (50, 49.2, 49.9), (120, 3.5, 118.0), (300, 0.25, 299.5),
                    (600, 1.5, 597.2), (600, 0.0, 600.0)):
        out.append(Scen('zlsq1_n%d(%s,%s)' % (n, a, b), ZSRC % {'z': zn(n), 'n': n}, [V('a', 0, 1), V('b', 0, 1), XI] + elev(n), disc={'a': [a], 'b': [b]}))
    out.append(Scen('qtile', """
from itmlogic.misc.qtile import qtile
import itm_ref
def impl(r, v0, v1, v2, v3, v4, v5): return qtile([v0, v1, v2, v3, v4, v5], r)
def ref(r, v0, v1, v2, v3, v4, v5): return itm_ref.qtile([v0, v1, v2, v3, v4, v5], r)
""", [V('v%d' % i, -500.0, 5000.0, log=False) for i in range(6)], disc={'r': [0, 1, 2, 3, 4, 5]}))
    # terrain irregularity: enumerated windows, free elevations
    geo = [(4, 0.0, 4.0), (4, 0.3, 3.9), (4, 1.0, 3.0), (4, 0.5, 2.4), (3, 0.0, 1.9), (6, 1.25, 5.75), (10, 0.2, 9.7), (10, 3.0, 10.0), (20, 0.75, 19.5),
           (45, 0.5, 44.5), (60, 2.0, 58.3), (260, 3.3, 256.0), (600, 4.6, 596.1)]
    if tier != 'quick':
        geo += [(2, 0.0, 2.0), (5, 0.01, 4.99), (8, 2.5, 7.0), (12, 0.1, 11.9), (30, 0.9, 29.1), (80, 1.1, 78.9), (100, 0.0, 100.0), (150, 0.6, 149.2)]
    src = """
from itmlogic.preparatory_subroutines.dlthx import dlthx
import itm_ref
def impl(a, b, xi, %(z)s):
    return dlthx([%(n)d, xi, %(z)s], a * xi, b * xi)
def ref(a, b, xi, %(z)s):
    return itm_ref.dlthx([%(n)d, xi, %(z)s], a * xi, b * xi)
"""
    for n, a, b in geo:
        out.append(Scen('dlthx_n%d(%s,%s)' % (n, a, b), src % {'z': zn(n), 'n': n}, [V('a', 0, 1), V('b', 0, 1), XI] + elev(n), disc={'a': [a], 'b': [b]},
                        weight=n))
    return out


def c10(tier='quick'):
    out = [Scen('qerf', """
from itmlogic.misc.qerf import qerf
import itm_ref
def impl(z): return qerf(z)
def ref(z): return itm_ref.qerf(z)
""", [V('z', -50.0, 50.0, log=False, specials=(0.0, 10.0, -10.0), rng=(-12.0, 12.0))])]
    out.append(Scen('qerfi', """
from itmlogic.misc.qerfi import qerfi
import itm_ref
def impl(a, b, c): return qerfi([a, b, c])
def ref(a, b, c): return itm_ref.qerfi1(a), itm_ref.qerfi1(b), itm_ref.qerfi1(c)
""", [V(x, 0.0, 1.0, log=False, specials=(0.5, 0.1, 0.9, 1e-6, 0.0, 1.0)) for x in 'abc']))
    for k in (0, 1, 2, 5, 9):
        ps = ['p%d' % i for i in range(k)]
        out.append(Scen('qerfi_len%d' % k, """
from itmlogic.misc.qerfi import qerfi
import itm_ref
def impl(%(a)s):
    r = qerfi([%(a)s])
    return len(r), r
def ref(%(a)s):
    return %(k)d, [itm_ref.qerfi1(p) for p in [%(a)s]]
""" % {'a': ', '.join(ps), 'k': k}, [V(x, 0.0, 1.0, log=False) for x in ps]))
    # a probability asked for more than once is answered each time, in its own place
    out.append(Scen('qerfi_repeats', """
from itmlogic.misc.qerfi import qerfi
import itm_ref
def impl(a, b):
    r = qerfi([b, a, a, b, a])
    return len(r), r
def ref(a, b): return 5, [itm_ref.qerfi1(p) for p in [b, a, a, b, a]]
""", [V(x, 0.0, 1.0, log=False, specials=(0.5,)) for x in 'ab']))
    # oddness: the deviate of 1-p is minus that of p
    out.append(Scen('qerfi_odd', """
from itmlogic.misc.qerfi import qerfi
def impl(p): return qerfi([1 - p])[0]
def ref(p): return -qerfi([p])[0]
""", [V('p', 1e-5, 0.4999, log=False)]))
    return out
