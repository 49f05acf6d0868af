"""Range facts: conditions that must hold for every input of the domain.

settle() pushes comparisons into gates until interval bounds decide them; cover() subdivides the input domain into
boxes whose interval enclosures decide the condition, until the whole domain is covered (few variables only)."""
import time
import numpy as np
from . import nodes as N
from . import boxes as BX


class Big(Exception):
    pass


def _branch(d):
    """(gate, node on true, node on false) for the first gate of a sum or product"""
    if d.op == 'ite':
        return d.a
    if d.op == '+':
        c, ts = d.a
        for i, (n, k) in enumerate(ts):
            b = _branch(n)
            if b:
                rest = N.add(d, N.scale(n, -k))
                return b[0], N.add(rest, N.scale(b[1], k)), N.add(rest, N.scale(b[2], k))
    if d.op == '*':
        for n, e in d.a:
            if n.op == 'ite':
                rest = N.mul(d, N.power(n, -e))
                return n.a[0], N.mul(rest, N.power(n.a[1], e)), N.mul(rest, N.power(n.a[2], e))
    return None


def settle(c, budget=4000):
    left = [budget]
    memo, dm = {}, {}

    def dist(op, d):
        k = (op, d.id)
        if k in dm:
            return dm[k]
        left[0] -= 1
        if left[0] < 0:
            raise Big()
        b = _branch(d)
        if b is None or d.lo > 0 or d.hi < 0:
            r = N._cmp(op, d)
        else:
            r = N.cite(b[0], dist(op, b[1]), dist(op, b[2]))
        dm[k] = r
        return r

    def go(x):
        if x.atom is None:
            return x
        if x.id in memo:
            return memo[x.id]
        a = x.atom
        at = N.lit(a) if a.op == 'b' else dist(a.op, N.sub(a.u, N.const(a.t)))
        r = N.cite(at, go(x.hi), go(x.lo))
        memo[x.id] = r
        return r
    try:
        return go(c)
    except (Big, N.Unsupported, RecursionError):
        return c


def cover(c, vars_, maxvars=4, maxboxes=400000, tlimit=20.0):
    """True when subdivision covers the whole domain with boxes on which c definitely holds"""
    order = BX.reach([c])
    syms = [x for x in order if isinstance(x, N.Node) and x.op == 's']
    vs = {v.name: v for v in vars_}
    if not syms or len(syms) > maxvars or any(s.a not in vs or vs[s.a].isint for s in syms):
        return False
    if any(isinstance(x, N.Atom) and x.op == 'b' for x in order):
        return False
    names = [s.a for s in syms]
    lo = np.array([[float(vs[n].lo)] for n in names])
    hi = np.array([[float(vs[n].hi)] for n in names])
    t0 = time.time()
    done = 0
    while lo.shape[1]:
        if time.time() - t0 > tlimit or done > maxboxes:
            return False
        k = min(lo.shape[1], 4096)
        cl, ch, lo, hi = lo[:, -k:], hi[:, -k:], lo[:, :-k], hi[:, :-k]
        ev = BX.Ev([c], {n: (cl[i], ch[i]) for i, n in enumerate(names)}, k, order)
        t, f = ev.get(c)
        done += k
        if np.any(f):
            return False
        m = ~np.broadcast_to(t, (k,))
        cl, ch = cl[:, m], ch[:, m]
        if not cl.shape[1]:
            continue
        w = np.empty_like(cl)
        mid = np.empty_like(cl)
        for i, n in enumerate(names):
            v = vs[n]
            full = float(v.hi) - float(v.lo)
            if v.log:
                w[i] = np.log(ch[i] / cl[i]) / np.log(v.hi / v.lo)
                mid[i] = np.sqrt(cl[i] * ch[i])
            else:
                w[i] = (ch[i] - cl[i]) / full
                mid[i] = 0.5 * (cl[i] + ch[i])
        if np.any(w.max(axis=0) < 1e-7):
            return False
        who = w.argmax(axis=0)
        j = np.arange(cl.shape[1])
        l2, h1 = cl.copy(), ch.copy()
        l2[who, j] = mid[who, j]
        h1[who, j] = mid[who, j]
        lo = np.concatenate([lo, cl, l2], axis=1)
        hi = np.concatenate([hi, h1, ch], axis=1)
    return True


def holds(node, want, vars_):
    """node == want (0 or 1 valued condition) everywhere in the domain"""
    c = N.eq(node, want)
    c = settle(c)
    if c is N.TRUE:
        return 'settled'
    if c is N.FALSE:
        return None
    return 'covered' if cover(c, vars_) else None
