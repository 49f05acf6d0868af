"""Value-graph sweeping: nodes of the two sides that agree on all sampled abstract points are candidate equals; each
candidate is proved by cancelling the difference, splitting on gate conditions where needed, and then merged, so that
larger expressions become one node.  Only proved equalities are merged."""
import time
import math
import numpy as np
from fractions import Fraction as Fr
from . import nodes as N
from . import boxes as BX
from .values import Facts


class Giveup(Exception):
    pass


def rebuild_node(x, nm, cm):
    """x with children mapped by nm (node id -> node), conditions by cm"""
    op = x.op
    if op in ('c', 's'):
        return x
    if op == '+':
        c, ts = x.a
        if all(nm[n.id] is n for n, k in ts):
            return x
        return N.add(N.addl([N.scale(nm[n.id], k) for n, k in ts]), N.const(c))
    if op == '*':
        if all(nm[n.id] is n for n, e in x.a):
            return x
        r = N.const(1)
        for n, e in x.a:
            r = N.mul(r, N.power(nm[n.id], e))
        return r
    if op == 'f':
        ch = x.a[1:-1]
        if all(nm[n.id] is n for n in ch):
            return x
        return N.fn(x.a[0], *[nm[n.id] for n in ch], extra=x.a[-1])
    c = cm[x.a[0].id]
    if c is N.TRUE:
        return nm[x.a[1].id]
    if c is N.FALSE:
        return nm[x.a[2].id]
    a, b = nm[x.a[1].id], nm[x.a[2].id]
    if c is x.a[0] and a is x.a[1] and b is x.a[2]:
        return x
    return N.ite(c, a, b)


def rebuild(roots, nm=None, facts=None, order=None):
    """roots rebuilt under substitution nm and facts; returns map id -> new"""
    order = order or BX.reach(roots)
    m = {}
    for x in order:
        if isinstance(x, N.Node):
            if nm and x.id in nm:
                m[x.id] = nm[x.id]
                continue
            m[x.id] = rebuild_node(x, m, m)
        elif isinstance(x, N.Atom):
            if facts is not None:
                v = facts.atom(x)
                if v is not None:
                    m[x.id] = N.TRUE if v else N.FALSE
                    continue
            if x.op == 'b' or m[x.u.id] is x.u:
                c = N.lit(x)
            else:
                c = N._cmp(x.op, N.sub(m[x.u.id], N.const(x.t)))
                if facts is not None:
                    c = facts.restrict(c)
            m[x.id] = c
        else:
            if x.atom is None:
                m[x.id] = x
            else:
                c = m[x.atom.id]
                h, l = m[x.hi.id], m[x.lo.id]
                r = N.cite(c, h, l)
                m[x.id] = r
    return m


def gate(roots, shared):
    """an atom of an outermost gate outside `shared`, or else a binary max/min there"""
    mx = None
    st = list(roots)
    seen = set(shared)
    while st:
        nxt = []
        best = None
        for x in st:
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'ite':
                if best is None or x.a[0].atom.id < best.id:
                    best = x.a[0].atom
                continue
            if x.op == 'f' and x.a[0] in ('max', 'min') and len(x.a) == 4 and mx is None:
                mx = x
            if x.op == '+':
                nxt += [n for n, k in x.a[1]]
            elif x.op == '*':
                nxt += [n for n, e in x.a]
            elif x.op == 'f':
                nxt += list(x.a[1:-1])
        if best is not None:
            return best, None
        st = nxt
    return None, mx


def solved(at):
    """u == t: one term of u expressed by the others"""
    c, ts = N._parts(at.u)
    for n, k in sorted(ts, key=lambda p: (not (p[0].op == 'f' and p[0].a[0] == 'floor'), p[0].op != 's', -p[0].id)):
        rest = [(m, q) for m, q in ts if m is not n]
        if n.op == 'c' or any(n.id in {x.id for x in BX.reach([m])} for m, q in rest):
            continue
        e = N.add(N.addl([N.scale(m, -q / k) for m, q in rest]) if rest else N.const(0), N.const((at.t - c) / k))
        return {n.id: e}
    return None


class Prover:
    def __init__(self, budget=4000, size=6000):
        self.budget, self.size = budget, size

    def equal(self, a, b, facts=None, splits=60, depth=0):
        """proved equal under facts"""
        self.left = splits
        self.cong = 30
        self.till = time.time() + 30
        try:
            return self._eq(a, b, facts or Facts(), 0)
        except (Giveup, N.Unsupported, RecursionError):
            return False

    def _eq(self, a, b, facts, depth):
        if a is b:
            return True
        if depth > 60 or time.time() > self.till:
            raise Giveup()
        if a.op == b.op == 'ite' and a.a[0] is b.a[0]:
            c = a.a[0]
            for v, i in ((True, 1), (False, 2)):
                dd = facts.decide(c)
                if dd is not None and dd is not v:
                    continue
                self.left -= 1
                if self.left < 0:
                    raise Giveup()
                f2 = facts.assume(c, v)
                m = rebuild([a.a[i], b.a[i]], None, f2)
                if not self._eq(m[a.a[i].id], m[b.a[i].id], f2, depth + 1):
                    return False
            return True
        if a.op == b.op == 'f' and a.a[0] == b.a[0] and a.a[-1] == b.a[-1] and len(a.a) == len(b.a) and self.cong > 0:
            k = self.left
            self.cong -= 1
            try:
                x = list(a.a[1:-1])
                y = list(b.a[1:-1])
                if a.a[0] in ('max', 'min', 'os'):
                    com = [n for n in x if n in y]
                    for n in com:
                        x.remove(n)
                        y.remove(n)
                if len(x) == len(y) and all(self._eq(p, q, facts, depth + 1) for p, q in zip(x, y)):
                    return True
            except Giveup:
                pass
            self.left = k
        d = N.sub(a, b)
        if d.op == 'c':
            return d.a == 0
        c, ts = N._parts(d)
        if d.op == '+' and c == 0 and len(ts) == 2 and ts[0][1] == -ts[1][1] and not (ts[0][0] in (a, b) and ts[1][0] in (a, b)):
            k = self.left
            try:
                if self._eq(ts[0][0], ts[1][0], facts, depth + 1):
                    return True
            except Giveup:
                pass
            self.left = k
        # a gate only one side has
        ra, rb = BX.reach([a]), BX.reach([b])
        if len(ra) + len(rb) > self.size:
            raise Giveup()
        ia, ib = {x.id for x in ra}, {x.id for x in rb}
        if len(ia ^ ib) < 60 and self._poly(d):
            return True
        at, mx = gate([a, b], ia & ib)
        if at is None and mx is None:
            return False
        self.left -= 1
        self.budget -= 1
        if self.left < 0 or self.budget < 0:
            raise Giveup()
        if at is not None:
            lit = N.lit(at)
            for v in (True, False):
                f2 = facts.assume(lit, v)
                m = rebuild([a, b], solved(at) if v and at.op == 'eq' else None, f2)
                if not self._eq(m[a.id], m[b.id], f2, depth + 1):
                    return False
            return True
        p, q = mx.a[1], mx.a[2]
        c = N.lt(p, q)
        hi, lo = (q, p) if mx.a[0] == 'max' else (p, q)
        for v, y in ((True, hi), (False, lo)):
            dd = facts.decide(c)
            if dd is not None and dd is not v:
                continue
            f2 = facts.assume(c, v)
            m = rebuild([a, b], {mx.id: y}, f2)
            if not self._eq(m[a.id], m[b.id], f2, depth + 1):
                return False
        return True

    def _poly(self, d):
        """expand products of sums over a common denominator; zero if everything cancels"""
        e = expand(d)
        return e is not None and not e


def expand(d, lim=400):
    """gate-free node -> {monomial: coeff} as a polynomial over atoms after clearing denominators; None if too big"""
    def atoms_of(n):
        return n

    def mono_mul(a, b):
        r = dict(a)
        for k, e in b:
            r[k] = r.get(k, 0) + e
            if r[k] == 0:
                del r[k]
        return tuple(sorted(r.items()))

    def pmul(p, q):
        if len(p) * len(q) > lim:
            raise Giveup()
        out = {}
        for m, c in p.items():
            for m2, c2 in q.items():
                k = mono_mul(m, m2)
                out[k] = out.get(k, 0) + c * c2
        return {k: v for k, v in out.items() if v}

    def padd(p, q, s=1):
        out = dict(p)
        for k, v in q.items():
            out[k] = out.get(k, 0) + s * v
        return {k: v for k, v in out.items() if v}

    memo = {}

    def frac(n):
        """(numerator poly, denominator poly)"""
        if n.id in memo:
            return memo[n.id]
        one = {(): Fr(1)}
        if n.op == 'c':
            r = ({(): n.a} if n.a else {}, one)
        elif n.op == '+':
            c, ts = n.a
            num, den = ({(): c} if c else {}), one
            for m, k in ts:
                a, b = frac(m)
                a = {x: v * k for x, v in a.items()}
                if b == den:
                    num = padd(num, a)
                else:
                    num = padd(pmul(num, b), pmul(a, den))
                    den = pmul(den, b)
            r = (num, den)
        elif n.op == '*':
            num, den = one, one
            for m, e in n.a:
                ip = math.floor(e)
                fp = e - ip
                if m.op in ('+',) and abs(ip) <= 6:
                    a, b = frac(m)
                    for _ in range(abs(ip)):
                        if ip > 0:
                            num, den = pmul(num, a), pmul(den, b)
                        else:
                            num, den = pmul(num, b), pmul(den, a)
                    if fp:
                        num = pmul(num, {((m.id, fp),): Fr(1)})
                elif m.op in ('+',):
                    num = pmul(num, {((m.id, e),): Fr(1)})
                else:
                    num = pmul(num, {((m.id, e),): Fr(1)})
            r = (num, den)
        else:
            r = ({((n.id, Fr(1)),): Fr(1)}, one)
        memo[n.id] = r
        return r
    try:
        num, den = frac(d)
    except Giveup:
        return None
    # fractional powers: a base with both fractional and whole powers may still combine (base is a sum); leave it
    return num


def ratio_of(a, b, r):
    """exact k with (a.u - a.t) = k (b.u - b.t), guessed from coefficients, near r"""
    ca, ta = N._parts(N.sub(a.u, N.const(a.t)))
    cb, tb = N._parts(N.sub(b.u, N.const(b.t)))
    cand = []
    if ca and cb:
        cand.append(ca / cb)
    mb = {n: k for n, k in tb}
    for n, k in ta:
        if n in mb:
            cand.append(k / mb[n])
    if not cand:
        cand = [k / q for n, k in ta for m, q in tb]
    cand.append(Fr(r).limit_denominator(1000))
    for k in cand:
        if abs(float(k) - r) <= 1e-6 * abs(r) and k != 0:
            return k
    return None


def sweep(a_roots, b_roots, cols, n, Pt, budget=6000, tlimit=20.0, val=None):
    """-> map id -> representative for all nodes reachable; merges proved-equal nodes of both sides"""
    t0 = time.time()
    order = BX.reach(list(a_roots) + list(b_roots))
    ina = {x.id for x in BX.reach(a_roots)}
    inb = {x.id for x in BX.reach(b_roots)}
    pt = Pt(order, cols, n)
    pr = Prover(budget)
    m = {}
    buckets = {}
    tried = 0
    merged = 0
    atoms = []
    seenat = set()
    for x in order:
        if isinstance(x, N.Node):
            y = rebuild_node(x, m, m)
            m[x.id] = y
            if x.op in ('c', 's'):
                continue
            v = np.broadcast_to(np.asarray(pt.val[x.id], float), (n,))
            fin = np.isfinite(v)
            if fin.sum() < n // 8 or n == 0:
                continue
            with np.errstate(all='ignore'):
                key = tuple(np.where(fin, v, 0.0)[:6].astype(np.float32).tolist())
            side = (x.id in ina, x.id in inb)
            lst = buckets.setdefault(key, [])
            hit = False
            for (oy, ov, oside) in lst:
                if oy is y:
                    hit = True
                    break
            if hit:
                continue
            for (oy, ov, oside) in lst:
                if oside == side and side != (True, True):
                    pass
                of = np.isfinite(ov)
                both = fin & of
                if (fin != of).any():
                    continue
                if not np.all(np.abs(v[both] - ov[both]) <= 1e-9 * np.maximum(np.abs(v[both]), 1e-300) + 1e-13 * np.abs(v[both]).max(initial=0)):
                    continue
                if time.time() - t0 > tlimit:
                    break
                tried += 1
                if pr.equal(y, oy):
                    m[x.id] = oy
                    merged += 1
                    hit = True
                    break
            if not hit:
                lst.append((y, v, side))
        elif isinstance(x, N.Atom):
            if x.op == 'b' or m[x.u.id] is x.u:
                m[x.id] = N.lit(x)
            else:
                m[x.id] = N._cmp(x.op, N.sub(m[x.u.id], N.const(x.t)))
            c = m[x.id]
            if x.op == 'b' or c.atom is None or c.hi.atom is not None or c.lo.atom is not None:
                continue
            at, pol = c.atom, c.hi is N.TRUE
            if at in seenat:
                continue
            seenat.add(at)
            u = np.broadcast_to(np.asarray(pt.val[x.u.id], float), (n,)) - float(x.t)
            if np.isfinite(u).sum() < n // 8:
                continue
            for at2, u2 in atoms:
                if time.time() - t0 > tlimit:
                    break
                with np.errstate(all='ignore'):
                    r = u / u2
                r = r[np.isfinite(r)]
                if len(r) < n // 8 or r[0] == 0 or not np.abs(r - r[0]).max() <= 1e-7 * abs(r[0]):
                    continue
                k = ratio_of(at, at2, float(r[0]))
                if k is None:
                    continue
                tried += 1
                if pr.equal(N.sub(at.u, N.const(at.t)), N.scale(N.sub(at2.u, N.const(at2.t)), k)):
                    d2 = N.sub(at2.u, N.const(at2.t))
                    nc = N._cmp(at.op, d2 if k > 0 else N.neg(d2))
                    m[x.id] = nc if pol else N.cnot(nc)
                    merged += 1
                    break
            else:
                atoms.append((at, u))
        else:
            m[x.id] = x if x.atom is None else N.cite(m[x.atom.id], m[x.hi.id], m[x.lo.id])
    stat = {'tried': tried, 'merged': merged, 's': round(time.time() - t0, 2)}
    if val is not None:
        for x in list(a_roots) + list(b_roots):
            val[x.id] = np.broadcast_to(np.asarray(pt.val[x.id], float), (n,))
    return m, stat
