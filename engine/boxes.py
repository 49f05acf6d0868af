"""Interval abstract interpretation of value graphs over many input boxes at once (numpy), and the
random-interpretation hash used to show two gate-resolved graphs equal on a whole region."""
import math
import hashlib
import numpy as np
from fractions import Fraction as Fr
from . import nodes as N

np.seterr(all='ignore')
P61 = (1 << 61) - 1


def _out(lo, hi, k=4.5e-16):
    if k:
        lo = np.where((lo == 0) | np.isinf(lo), lo, lo - np.abs(lo) * k)
        hi = np.where((hi == 0) | np.isinf(hi), hi, hi + np.abs(hi) * k)
    return np.where(np.isfinite(lo) & (lo != 0), np.nextafter(lo, -np.inf), lo), \
        np.where(np.isfinite(hi) & (hi != 0), np.nextafter(hi, np.inf), hi)


def _mm(x, y):
    p = x * y
    return np.where((x == 0) | (y == 0), 0.0, p)


def v_mul(a, b):
    bad = np.isnan(a[0]) | np.isnan(a[1]) | np.isnan(b[0]) | np.isnan(b[1])
    p1, p2, p3, p4 = _mm(a[0], b[0]), _mm(a[0], b[1]), _mm(a[1], b[0]), _mm(a[1], b[1])
    lo = np.minimum(np.minimum(p1, p2), np.minimum(p3, p4))
    hi = np.maximum(np.maximum(p1, p2), np.maximum(p3, p4))
    lo, hi = _out(lo, hi, 0.0)
    return np.where(bad, np.nan, lo), np.where(bad, np.nan, hi)


def v_inv(a):
    lo, hi = a
    z = (lo < 0) & (hi > 0)
    l = np.where(hi == 0, -np.inf, 1.0 / hi)
    h = np.where(lo == 0, np.inf, 1.0 / lo)
    l = np.where(z, -np.inf, l)
    h = np.where(z, np.inf, h)
    bad = ((lo == 0) & (hi == 0)) | np.isnan(lo) | np.isnan(hi)
    l, h = _out(l, h, 0.0)
    return np.where(bad, np.nan, l), np.where(bad, np.nan, h)


def v_pow(a, e):
    lo, hi = a
    bad = np.isnan(lo) | np.isnan(hi)
    if e.denominator == 1:
        n = e.numerator
        if n < 0:
            return v_inv(v_pow(a, -e))
        if n == 1:
            return a
        if n % 2 == 0:
            al, ah = np.abs(lo), np.abs(hi)
            m = np.maximum(al, ah)
            l = np.where((lo <= 0) & (hi >= 0), 0.0, np.minimum(al, ah) ** n)
            h = m ** n
        else:
            l = np.sign(lo) * np.abs(lo) ** n
            h = np.sign(hi) * np.abs(hi) ** n
        l, h = _out(l, h, 9e-16)
        return np.where(bad, np.nan, l), np.where(bad, np.nan, h)
    f = float(abs(e))
    bad = bad | (hi < 0)
    l = np.maximum(lo, 0.0) ** f
    h = np.maximum(hi, 0.0) ** f
    l, h = _out(l, h, 9e-16)
    l = np.maximum(l, 0.0)
    r = (np.where(bad, np.nan, l), np.where(bad, np.nan, h))
    if e < 0:
        return v_inv(r)
    return r


def v_add(a, b):
    lo, hi = a[0] + b[0], a[1] + b[1]
    # error-free sums need no outward rounding
    t = lo - a[0]
    xl = ((a[0] - (lo - t)) + (b[0] - t)) == 0
    t = hi - a[1]
    xh = ((a[1] - (hi - t)) + (b[1] - t)) == 0
    bad = np.isnan(a[0]) | np.isnan(b[0]) | np.isnan(a[1]) | np.isnan(b[1])
    lo = np.where(np.isnan(lo), -np.inf, lo)
    hi = np.where(np.isnan(hi), np.inf, hi)
    lo, hi = np.where(xl, lo, np.nextafter(lo, -np.inf)), np.where(xh, hi, np.nextafter(hi, np.inf))
    return np.where(bad, np.nan, lo), np.where(bad, np.nan, hi)


def v_sin(a, shift=0.0):
    lo, hi = a
    wild = ~((np.abs(lo) < 1e8) & (np.abs(hi) < 1e8)) | (hi - lo >= 2 * math.pi)
    l0, h0 = lo + shift, hi + shift
    s1, s2 = np.sin(l0), np.sin(h0)
    l = np.minimum(s1, s2) - 1e-15 - np.abs(lo) * 4e-16
    h = np.maximum(s1, s2) + 1e-15 + np.abs(hi) * 4e-16

    def contains(c):
        k = np.ceil((l0 - c) / (2 * math.pi) - 1e-9)
        return c + 2 * math.pi * k <= h0 + 1e-7
    h = np.where(contains(math.pi / 2), 1.0, h)
    l = np.where(contains(-math.pi / 2), -1.0, l)
    l = np.where(wild, -1.0, np.maximum(l, -1.0))
    h = np.where(wild, 1.0, np.minimum(h, 1.0))
    bad = np.isnan(lo) | np.isnan(hi)
    return np.where(bad, np.nan, l), np.where(bad, np.nan, h)


def v_csq_re(re, im):
    ab = v_pow(v_add(v_pow(re, Fr(2)), v_pow(im, Fr(2))), Fr(1, 2))
    s = v_add(ab, re)
    return v_pow((np.maximum(s[0], 0.0) * 0.5, s[1] * 0.5), Fr(1, 2))


def v_csq_im(re, im):
    r = v_csq_re(re, im)
    ab = v_pow(v_add(v_pow(re, Fr(2)), v_pow(im, Fr(2))), Fr(1, 2))
    s = v_add(ab, (-re[1], -re[0]))
    m = v_pow((np.maximum(s[0], 0.0) * 0.5, np.maximum(s[1], 0.0) * 0.5), Fr(1, 2))
    pos = im[0] >= 0
    ng = im[1] < 0
    bl = np.where(pos, m[0], -m[1])
    bh = np.where(ng, -m[0], m[1])
    q = v_mul((im[0] * 0.5, im[1] * 0.5), v_inv(r))
    use = r[0] > 0
    ql = np.where(use, np.maximum(bl, q[0]), bl)
    qh = np.where(use, np.minimum(bh, q[1]), bh)
    wrong = ql > qh
    return np.where(wrong, q[0], ql), np.where(wrong, q[1], qh)


def v_fn(name, ivs, extra, n):
    bad = np.zeros(n, bool)
    for lo, hi in ivs:
        bad = bad | np.isnan(lo) | np.isnan(hi)
    if name == 'exp':
        l, h = _out(np.exp(ivs[0][0]), np.exp(ivs[0][1]))
    elif name == 'log':
        lo, hi = ivs[0]
        bad = bad | (hi < 0)
        l = np.log(np.maximum(lo, 0.0))
        h = np.log(np.maximum(hi, 0.0))
        l, h = _out(l, h)
        l = l - 1e-16
        h = h + 1e-16
    elif name == 'sin':
        l, h = v_sin(ivs[0])
    elif name == 'cos':
        l, h = v_sin(ivs[0], math.pi / 2)
    elif name == 'tan':
        l, h = v_mul(v_sin(ivs[0]), v_inv(v_sin(ivs[0], math.pi / 2)))
    elif name == 'atan':
        l, h = _out(np.arctan(ivs[0][0]), np.arctan(ivs[0][1]))
    elif name == 'floor':
        l, h = np.floor(ivs[0][0]), np.floor(ivs[0][1])
    elif name == 'round':
        k = 10.0 ** (extra or 0)
        l, h = np.rint(ivs[0][0] * k) / k, np.rint(ivs[0][1] * k) / k
        l, h = np.minimum(l, h), np.maximum(l, h)
    elif name == 'max':
        l, h = ivs[0]
        for a, b in ivs[1:]:
            l, h = np.maximum(l, a), np.maximum(h, b)
    elif name == 'min':
        l, h = ivs[0]
        for a, b in ivs[1:]:
            l, h = np.minimum(l, a), np.minimum(h, b)
    elif name == 'csq_re':
        l, h = v_csq_re(*ivs)
    elif name == 'csq_im':
        l, h = v_csq_im(*ivs)
    elif name == 'os':
        l = np.sort(np.stack([v[0] for v in ivs]), axis=0)[extra]
        h = np.sort(np.stack([v[1] for v in ivs]), axis=0)[extra]
    else:
        L, H = np.empty(n), np.empty(n)
        for i in range(n):
            L[i], H[i] = N.i_fn(name, [(float(a[i]), float(b[i])) for a, b in ivs], extra)
        l, h = L, H
    return np.where(bad, np.nan, l), np.where(bad, np.nan, h)


def reach(roots):
    """all nodes/atoms/bdds reachable, topologically (by id)"""
    seen = {}
    st = list(roots)
    while st:
        x = st.pop()
        if x is None or x.id in seen:
            continue
        seen[x.id] = x
        if isinstance(x, N.Node):
            if x.op == '+':
                st.extend(m for m, _ in x.a[1])
            elif x.op == '*':
                st.extend(m for m, _ in x.a)
            elif x.op == 'f':
                st.extend(x.a[1:-1])
            elif x.op == 'ite':
                st.extend(x.a)
        elif isinstance(x, N.Atom):
            if x.op != 'b':
                st.append(x.u)
        else:
            if x.atom is not None:
                st.extend((x.atom, x.hi, x.lo))
    return [seen[i] for i in sorted(seen)]


class Ev:
    """box: name -> (lo array, hi array)"""

    def __init__(self, roots, box, n, order=None, bools=None):
        self.n = n
        order = order if order is not None else reach(roots)
        self.order = order
        val = self.val = {}
        one = np.ones(n, bool)
        zero = np.zeros(n, bool)
        for x in order:
            if isinstance(x, N.Node):
                op = x.op
                if op == 'c':
                    i = N.i_c(x.a)
                    r = (np.full(n, i[0]), np.full(n, i[1]))
                elif op == 's':
                    if x.a in box:
                        r = box[x.a]
                    else:
                        r = (np.full(n, x.lo), np.full(n, x.hi))
                elif op == '+':
                    c, ts = x.a
                    i = N.i_c(c)
                    r = (np.full(n, i[0]), np.full(n, i[1]))
                    first = c == 0
                    for m, k in ts:
                        v = val[m.id]
                        if k == -1:
                            v = (-v[1], -v[0])
                        elif k != 1:
                            ki = N.i_c(k)
                            v = v_mul(v, (np.full(n, ki[0]), np.full(n, ki[1])))
                        if first:
                            r = v
                            first = False
                        else:
                            r = v_add(r, v)
                elif op == '*':
                    r = None
                    for m, e in x.a:
                        v = v_pow(val[m.id], e)
                        r = v if r is None else v_mul(r, v)
                elif op == 'f':
                    r = v_fn(x.a[0], [val[m.id] for m in x.a[1:-1]], x.a[-1], n)
                else:
                    t, f = val[x.a[0].id]
                    a, b = val[x.a[1].id], val[x.a[2].id]
                    nb = np.isnan(a[0]) | np.isnan(b[0])
                    hl = np.where(nb, -np.inf, np.minimum(a[0], b[0]))
                    hh = np.where(nb, np.inf, np.maximum(a[1], b[1]))
                    r = (np.where(t, a[0], np.where(f, b[0], hl)), np.where(t, a[1], np.where(f, b[1], hh)))
            elif isinstance(x, N.Atom):
                if x.op == 'b':
                    if bools and x.u in bools:
                        v = bools[x.u]
                        r = (v, ~v)
                    else:
                        r = (zero, zero)
                else:
                    lo, hi = val[x.u.id]
                    tl, th = N.i_c(x.t)
                    if x.op == 'lt':
                        r = (hi < tl, lo >= th)
                    elif x.op == 'le':
                        r = (hi <= tl, lo > th)
                    else:
                        r = ((lo == hi) & (lo == tl) & (tl == th), (lo > th) | (hi < tl))
            else:
                if x.atom is None:
                    r = (one, zero) if x is N.TRUE else (zero, one)
                else:
                    at, af = val[x.atom.id]
                    ht, hf = val[x.hi.id]
                    lt_, lf = val[x.lo.id]
                    r = ((at & ht) | (af & lt_) | (ht & lt_), (at & hf) | (af & lf) | (hf & lf))
            val[x.id] = r

    def get(self, x):
        return self.val[x.id]


def _h(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), 'big') % P61


class Hash:
    """random interpretation of a graph in column k of an Ev: gates resolved by intervals"""

    def __init__(self, ev, k, seed=0):
        self.ev, self.k, self.seed = ev, k, seed
        self.m = {}

    def h(self, root):
        ev, k = self.ev, self.k
        for x in reach([root]):
            if x.id in self.m or not isinstance(x, N.Node):
                continue
            m = self.m
            if x.op == 'c':
                v = x.a.numerator % P61 * pow(x.a.denominator % P61, -1, P61) % P61
            elif x.op == 's':
                v = _h('s', x.a, self.seed)
            elif x.op == '+':
                c, ts = x.a
                v = c.numerator % P61 * pow(c.denominator % P61, -1, P61)
                for n, q in ts:
                    v += m[n.id] * (q.numerator % P61) % P61 * pow(q.denominator % P61, -1, P61)
                v %= P61
            elif x.op == '*':
                v = 1
                for n, e in x.a:
                    fl = math.floor(e)
                    fr = e - fl
                    b = m[n.id]
                    if b == 0 and fl < 0:
                        v = _h('inv0', x.id)
                        break
                    v = v * pow(b, fl, P61) % P61
                    if fr:
                        v = v * _h('pw', b, fr, self.seed) % P61
            elif x.op == 'f':
                if x.a[0] in ('max', 'min'):
                    ivs = [(ev.get(n), n) for n in x.a[1:-1]]
                    lo = [float(i[0][0][k]) for i in ivs]
                    hi = [float(i[0][1][k]) for i in ivs]
                    best = None
                    for j in range(len(ivs)):
                        if x.a[0] == 'max' and all(lo[j] >= hi[i] for i in range(len(ivs)) if i != j):
                            best = j
                        if x.a[0] == 'min' and all(hi[j] <= lo[i] for i in range(len(ivs)) if i != j):
                            best = j
                    v = m[ivs[best][1].id] if best is not None else _h(x.a[0], sorted(m[i[1].id] for i in ivs))
                elif x.a[0] == 'os':
                    v = _h('os', x.a[-1], sorted(m[n.id] for n in x.a[1:-1]), self.seed)
                else:
                    v = _h(x.a[0], x.a[-1], [m[n.id] for n in x.a[1:-1]], self.seed)
            else:
                t, f = ev.get(x.a[0])
                if t[k]:
                    v = m[x.a[1].id]
                elif f[k]:
                    v = m[x.a[2].id]
                elif m[x.a[1].id] == m[x.a[2].id]:
                    v = m[x.a[1].id]
                else:
                    v = _h('ite', x.a[0].id, m[x.a[1].id], m[x.a[2].id])
            self.m[x.id] = v
        return self.m[root.id]
