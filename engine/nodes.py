"""Hash-consed value-graph nodes: exact-rational arithmetic normal forms, decision-diagram conditions.

A Node is a real-valued expression over the symbolic inputs.  Conditions are reduced ordered binary decision
diagrams over comparison atoms, so two conditions are equivalent over their atoms iff they are one object.
Every node carries interval bounds valid on the declared input domain (used only to prune gates that are decided
on the whole domain).
"""
import functools
import math
from fractions import Fraction as Fr

INF = float('inf')
NAN = float('nan')


class Unsupported(Exception):
    """The analysed source uses something the abstract semantics does not cover."""


# ------------------------------------------------------------------ scalar intervals
def _dn(x):
    return math.nextafter(x, -INF)


def _up(x):
    return math.nextafter(x, INF)


@functools.lru_cache(maxsize=200000)
def i_c(fr):
    try:
        f = float(fr)
    except OverflowError:
        return (1.7e308, INF) if fr > 0 else (-INF, -1.7e308)
    if math.isinf(f):
        return (1.7e308, INF) if f > 0 else (-INF, -1.7e308)
    try:
        if Fr(f) == fr:
            return (f, f)
    except (OverflowError, ValueError):
        pass
    return (_dn(f), _up(f))


def isbad(i):
    return i[0] != i[0] or i[1] != i[1]


BAD = (NAN, NAN)


def i_add(a, b):
    lo = a[0] + b[0]
    hi = a[1] + b[1]
    if lo != lo or hi != hi:
        if isbad(a) or isbad(b):
            return BAD
        return (-INF, INF)
    if not (a[0] == a[1] == 0.0 or b[0] == b[1] == 0.0):
        lo = _dn(lo)
        hi = _up(hi)
    return (lo, hi)


def _m(x, y):
    if x == 0.0 or y == 0.0:
        return 0.0
    return x * y


def i_mul(a, b):
    if isbad(a) or isbad(b):
        return BAD
    ps = (_m(a[0], b[0]), _m(a[0], b[1]), _m(a[1], b[0]), _m(a[1], b[1]))
    lo = min(ps)
    hi = max(ps)
    if lo == 0.0 and hi == 0.0:
        return (0.0, 0.0)
    return (_dn(lo) if lo != 0.0 else 0.0, _up(hi) if hi != 0.0 else 0.0)


def i_inv(a):
    if isbad(a):
        return BAD
    lo, hi = a
    if lo == 0.0 and hi == 0.0:
        return BAD
    if lo < 0.0 < hi:
        return (-INF, INF)
    if lo == 0.0:
        return (_dn(1.0 / hi), INF)
    if hi == 0.0:
        return (-INF, _up(1.0 / lo))
    return (_dn(1.0 / hi), _up(1.0 / lo))


def _pw(x, e):
    try:
        return math.pow(x, e)
    except OverflowError:
        return INF


def i_pow(a, e):
    """e: Fraction"""
    if isbad(a):
        return BAD
    if e.denominator == 1:
        n = e.numerator
        if n < 0:
            return i_inv(i_pow(a, -e))
        if n == 0:
            return (1.0, 1.0)
        if n == 1:
            return a
        lo, hi = a
        if n % 2 == 0:
            m = max(abs(lo), abs(hi))
            if lo <= 0.0 <= hi:
                r = (0.0, _pw(m, n))
            else:
                r = (_pw(min(abs(lo), abs(hi)), n), _pw(m, n))
        else:
            def sp(x):
                return _pw(x, n) if x >= 0 else -_pw(-x, n)
            r = (sp(lo), sp(hi))
        return _out4(r)
    lo, hi = a
    if hi < 0.0:
        return BAD
    lo = max(lo, 0.0)
    f = float(abs(e))
    r = (_pw(lo, f) if lo != INF else INF, _pw(hi, f) if hi != INF else INF)
    r = _out4(r)
    if r[0] < 0.0:
        r = (0.0, r[1])
    if e < 0:
        return i_inv(r)
    return r


def _out4(r):
    lo, hi = r
    if lo != 0.0 and abs(lo) != INF:
        lo = lo - abs(lo) * 9e-16
        lo = _dn(lo)
    if hi != 0.0 and abs(hi) != INF:
        hi = hi + abs(hi) * 9e-16
        hi = _up(hi)
    return (lo, hi)


def _mono(f):
    def g(a):
        if isbad(a):
            return BAD
        return _out4((f(a[0]), f(a[1])))
    return g


def _exp(x):
    if x == -INF:
        return 0.0
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def _log(x):
    if x <= 0.0:
        return -INF
    if x == INF:
        return INF
    return math.log(x)


def i_log(a):
    if isbad(a) or a[1] < 0.0:
        return BAD
    if a[1] == 0.0:
        return (-INF, -INF)
    r = _out4((_log(max(a[0], 0.0)), _log(a[1])))
    # absolute safety near log(1)=0
    return (r[0] - 1e-16 if r[0] != -INF else r[0], r[1] + 1e-16 if r[1] != INF else r[1])


def i_sin(a, shift=0.0):
    if isbad(a):
        return BAD
    lo, hi = a
    if not (abs(lo) < 1e8 and abs(hi) < 1e8) or hi - lo >= 2 * math.pi:
        return (-1.0, 1.0)
    lo_s = lo + shift
    hi_s = hi + shift
    # does the interval contain pi/2 + 2k pi  or -pi/2 + 2k pi
    def contains(c):
        k = math.ceil((lo_s - c) / (2 * math.pi) - 1e-9)
        return c + 2 * math.pi * k <= hi_s + 1e-7
    s1, s2 = math.sin(lo_s), math.sin(hi_s)
    l, h = min(s1, s2) - 1e-15 - abs(lo) * 4e-16, max(s1, s2) + 1e-15 + abs(hi) * 4e-16
    if contains(math.pi / 2):
        h = 1.0
    if contains(-math.pi / 2):
        l = -1.0
    return (max(-1.0, l), min(1.0, h))


def i_floor(a):
    if isbad(a):
        return BAD
    return (math.floor(a[0]) * 1.0 if abs(a[0]) < 1e15 else a[0], math.floor(a[1]) * 1.0 if abs(a[1]) < 1e15 else a[1])


def _roundn(x, n):
    if abs(x) == INF or x != x:
        return x
    if abs(x) > 1e15:
        return x
    return float(round(Fr(x), n)) if n is not None else float(round(Fr(x)))


def i_atan(a):
    if isbad(a):
        return BAD
    return _out4((math.atan(a[0]), math.atan(a[1])))


def i_clip(f, dlo, dhi):
    def g(a):
        if isbad(a) or a[1] < dlo or a[0] > dhi:
            return BAD
        lo, hi = max(a[0], dlo), min(a[1], dhi)
        x, y = f(lo), f(hi)
        return _out4((min(x, y), max(x, y)))
    return g


def i_csq_re(re, im):
    ab = i_pow(i_add(i_pow(re, Fr(2)), i_pow(im, Fr(2))), Fr(1, 2))
    return i_pow(i_mul(i_add(ab, re), (0.5, 0.5)), Fr(1, 2)) if not isbad(ab) else BAD


def i_csq_im(re, im):
    if isbad(re) or isbad(im):
        return BAD
    r = i_csq_re(re, im)
    ab = i_pow(i_add(i_pow(re, Fr(2)), i_pow(im, Fr(2))), Fr(1, 2))
    m = i_pow(i_mul(i_add(ab, (-re[1], -re[0])), (0.5, 0.5)), Fr(1, 2))
    if isbad(m):
        m = (0.0, INF)
    if im[0] >= 0.0:
        b = m
    elif im[1] < 0.0:
        b = (-m[1], -m[0])
    else:
        b = (-m[1], m[1])
    if r[0] > 0.0:
        q = i_mul(i_mul(im, (0.5, 0.5)), i_inv(r))
        return (max(b[0], q[0]), min(b[1], q[1])) if max(b[0], q[0]) <= min(b[1], q[1]) else q
    return b


def i_os(k, ivs):
    if any(isbad(v) for v in ivs):
        return BAD
    los = sorted(v[0] for v in ivs)
    his = sorted(v[1] for v in ivs)
    return (los[k], his[k])


def i_fn(name, ivs, extra):
    if name == 'exp':
        return _mono(_exp)(ivs[0])
    if name == 'log':
        return i_log(ivs[0])
    if name == 'sin':
        return i_sin(ivs[0])
    if name == 'cos':
        return i_sin(ivs[0], math.pi / 2)
    if name == 'tan':
        s, c = i_sin(ivs[0]), i_sin(ivs[0], math.pi / 2)
        return i_mul(s, i_inv(c))
    if name == 'atan':
        return i_atan(ivs[0])
    if name == 'asin':
        return i_clip(math.asin, -1.0, 1.0)(ivs[0])
    if name == 'acos':
        return i_clip(math.acos, -1.0, 1.0)(ivs[0])
    if name in ('tanh', 'sinh', 'erf'):
        return _mono(getattr(math, name))(ivs[0]) if max(abs(ivs[0][0]), abs(ivs[0][1])) < 700 else (-INF, INF)
    if name == 'erfc':
        r = _mono(math.erfc)(ivs[0])
        return (r[1], r[0]) if r[1] < r[0] else r
    if name == 'floor':
        return i_floor(ivs[0])
    if name == 'round':
        if isbad(ivs[0]):
            return BAD
        n = extra
        return (_roundn(ivs[0][0], n), _roundn(ivs[0][1], n))
    if name == 'max':
        if any(isbad(v) for v in ivs):
            return BAD
        return (max(v[0] for v in ivs), max(v[1] for v in ivs))
    if name == 'min':
        if any(isbad(v) for v in ivs):
            return BAD
        return (min(v[0] for v in ivs), min(v[1] for v in ivs))
    if name == 'csq_re':
        return i_csq_re(*ivs)
    if name == 'csq_im':
        return i_csq_im(*ivs)
    if name == 'os':
        return i_os(extra, ivs)
    return (-INF, INF)


# ------------------------------------------------------------------ tables
class Table:
    def __init__(self):
        self.nodes = {}
        self.atoms = {}
        self.bdds = {}
        self.itememo = {}
        self.next = 1
        self.dom = {}
        self.limit = 600000
        self.uninterp = set()
        self.cmpmemo = {}


T = Table()
CURLOC = [None]


def reset(limit=600000):
    global T, TRUE, FALSE
    T = Table()
    T.limit = limit
    TRUE = B(None, None, None, T_ID())
    FALSE = B(None, None, None, T_ID())
    return T


def T_ID():
    n = T.next
    T.next += 1
    if n > T.limit:
        raise Unsupported('value graph too large')
    return n


class Node:
    __slots__ = ('op', 'a', 'id', 'isint', 'lo', 'hi', 'loc', 'cl')

    def __repr__(self):
        return show(self)


class Atom:
    __slots__ = ('op', 'u', 't', 'id', 'loc')

    def __repr__(self):
        return '(%s %s %s)' % (self.op, show(self.u) if isinstance(self.u, Node) else self.u, self.t)


class B:
    __slots__ = ('atom', 'hi', 'lo', 'id')

    def __init__(self, atom, hi, lo, id):
        self.atom, self.hi, self.lo, self.id = atom, hi, lo, id

    def __repr__(self):
        return showc(self)


def _mk(op, a, isint, iv):
    key = (op, a)
    n = T.nodes.get(key)
    if n is not None:
        return n
    n = Node()
    n.op, n.a, n.id, n.isint = op, a, T_ID(), isint
    n.lo, n.hi = iv
    n.loc = CURLOC[0]
    n.cl = op == 'c'
    T.nodes[key] = n
    return n


def const(v):
    if not isinstance(v, Fr):
        v = Fr(v)
    return _mk('c', v, v.denominator == 1, i_c(v))


def sym(name, lo=-INF, hi=INF, isint=False):
    T.dom.setdefault(name, (lo, hi))
    lo, hi = T.dom[name]
    return _mk('s', name, isint, (float(lo), float(hi)))


def isc(n):
    return n.op == 'c'


def bounds(n):
    return (n.lo, n.hi)


# sum node: a = (const, ((node, coeff), ...)) ; nodes sorted by id ; not (const==0 and one term with coeff 1)
def _parts(n):
    """-> (const, {node: coeff})"""
    if n.op == 'c':
        return n.a, ()
    if n.op == '+':
        return n.a
    return Fr(0), ((n, Fr(1)),)


def _rank(n):
    if n.op == 'f' and n.a[0] in ('os', 'min', 'max'):
        a = n.a[1:-1]
        return tuple(sorted(x.id for x in a)), (n.a[-1] if n.a[0] == 'os' else 0 if n.a[0] == 'min' else len(a) - 1)
    return None


def _mksum(c, terms):
    ts = tuple(sorted(((n, k) for n, k in terms.items() if k != 0), key=lambda p: p[0].id))
    if not ts:
        return const(c)
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    iv = i_c(c)
    isint = c.denominator == 1
    for n, k in ts:
        iv = i_add(iv, i_mul(i_c(k), (n.lo, n.hi)))
        isint = isint and n.isint and k.denominator == 1
    if len(ts) >= 2 and c == 0:
        # order statistics of the same list are ordered by rank
        rk = [_rank(n) for n, k in ts]
        if rk[0] is not None and all(r is not None and r[0] == rk[0][0] for r in rk) and sum(k for n, k in ts) == 0:
            acc, sg = Fr(0), set()
            for r, k in sorted(((r[1], k) for r, (n, k) in zip(rk, ts)), key=lambda x: -x[0]):
                acc += k
                sg.add(acc > 0 or (acc == 0) * 2)
            if False not in sg:
                iv = (max(iv[0], 0.0), iv[1])
            elif True not in sg:
                iv = (iv[0], min(iv[1], 0.0))
    return _mk('+', (c, ts), isint, iv)


def add(x, y):
    if x.op == 'c' and x.a == 0:
        return y
    if y.op == 'c' and y.a == 0:
        return x
    cx, tx = _parts(x)
    cy, ty = _parts(y)
    d = dict(tx)
    for n, k in ty:
        d[n] = d.get(n, 0) + k
    return _mksum(cx + cy, d)


def addl(xs):
    c = Fr(0)
    d = {}
    for x in xs:
        cx, tx = _parts(x)
        c += cx
        for n, k in tx:
            d[n] = d.get(n, 0) + k
    return _mksum(c, d)


def scale(x, k):
    if k == 0:
        return const(0)
    if k == 1:
        return x
    c, t = _parts(x)
    return _mksum(c * k, {n: q * k for n, q in t})


def neg(x):
    return scale(x, Fr(-1))


def sub(x, y):
    return add(x, neg(y))


def _core(x):
    """x = k * core ; core primitive"""
    if x.op == 'c':
        return x.a, None
    if x.op == '+':
        c, t = x.a
        k = t[0][1]
        if c == 0 and len(t) == 1:
            return k, t[0][0]
        if k != 1:
            return k, scale(x, 1 / k)
        return Fr(1), x
    return Fr(1), x


def _factors(core):
    if core is None:
        return ()
    if core.op == '*':
        return core.a
    return ((core, Fr(1)),)


def _mkmono(d):
    ts = []
    k = Fr(1)
    for n, e in d.items():
        if e == 0:
            continue
        if n.op == '*' and e.denominator == 1:
            # flatten
            dd = {}
            for m, f in n.a:
                dd[m] = dd.get(m, 0) + f * e
            r = dict(d)
            del r[n]
            for m, f in dd.items():
                r[m] = r.get(m, 0) + f
            return _mkmono(r)
        if n.op == 'c':
            q = math.floor(e)
            if q:
                k *= n.a ** q
                e = e - q
            if e == 0:
                continue
        ts.append((n, e))
    if not ts:
        return const(k)
    ts.sort(key=lambda p: p[0].id)
    if len(ts) == 1 and ts[0][1] == 1:
        return scale(ts[0][0], k)
    iv = (1.0, 1.0)
    isint = True
    for n, e in ts:
        iv = i_mul(iv, i_pow((n.lo, n.hi), e))
        isint = isint and n.isint and e.denominator == 1 and e > 0
    return scale(_mk('*', tuple(ts), isint, iv), k)


def mul(x, y):
    if x.op == 'c':
        return scale(y, x.a)
    if y.op == 'c':
        return scale(x, y.a)
    kx, cx = _core(x)
    ky, cy = _core(y)
    d = {}
    for n, e in _factors(cx) + _factors(cy):
        d[n] = d.get(n, 0) + e
    return scale(_mkmono(d), kx * ky)


def _rootk(k, e):
    """k>0 rational to rational power; exact if perfect, else node"""
    p, q = e.numerator, e.denominator
    def iroot(n):
        r = round(n ** (1.0 / q)) if n < 10 ** 300 else None
        if r is None:
            return None
        for c in (r - 1, r, r + 1):
            if c >= 0 and c ** q == n:
                return c
        return None
    a, b = iroot(k.numerator), iroot(k.denominator)
    if a is not None and b is not None:
        return const(Fr(a, b) ** p)
    fl = math.floor(e)
    fr = e - fl
    return _mkmono({const(k): fr + fl})


def power(x, e):
    """e Fraction; caller records domain faults"""
    e = Fr(e)
    if e == 1:
        return x
    if e == 0:
        return const(1)
    if x.op == 'c':
        if x.a == 0:
            return const(0) if e > 0 else fn('undef0', x)
        if e.denominator == 1:
            if abs(e) > 400:
                return fn('powf', x, const(e))
            return const(x.a ** int(e))
        if x.a > 0:
            return _rootk(x.a, e)
        return fn('powf', x, const(e))
    k, core = _core(x)
    if e.denominator != 1 and k < 0:
        return _mkmono({x: e})
    kk = const(k ** int(e)) if e.denominator == 1 else (_rootk(k, e) if k != 1 else const(1))
    if core.op == '*':
        if e.denominator == 1 or all(n.lo >= 0 for n, _ in core.a):
            r = _mkmono({n: f * e for n, f in core.a})
        else:
            r = _mkmono({core: e})
    else:
        r = _mkmono({core: e})
    return mul(kk, r)


def div(x, y):
    return mul(x, power(y, Fr(-1)))


def fn(name, *args, extra=None):
    a = args
    if name == 'exp':
        x = a[0]
        if x.op == 'c' and x.a == 0:
            return const(1)
        if x.op == 'f' and x.a[0] == 'log':
            return x.a[1]
        k, core = _core(x)
        if core is not None and k < 0:
            return power(_mkfn('exp', (neg(x),), None), -1)
    elif name == 'log':
        x = a[0]
        if x.op == 'c' and x.a > 0:
            return _logc(x.a)
        if x.op == 'f' and x.a[0] == 'exp':
            return x.a[1]
        k, core = _core(x)
        if core is not None and k > 0:
            fs = _factors(core)
            if (k != 1 or len(fs) > 1 or (fs[0][1] != 1)) and all(n.lo >= 0 for n, _ in fs):
                out = []
                if k != 1:
                    out.append(_logc(k))
                for n, e in fs:
                    out.append(scale(_logatom(n), e))
                return addl(out)
    elif name == 'floor':
        x = a[0]
        if x.isint:
            return x
        if x.op == 'c':
            return const(math.floor(x.a))
        c, t = _parts(x)
        ints = {n: k for n, k in t if n.isint and k.denominator == 1}
        fl = math.floor(c)
        if ints or fl:
            rest = _mksum(c - fl, {n: k for n, k in t if n not in ints})
            return add(_mksum(Fr(fl), ints), fn('floor', rest))
        if math.isfinite(x.lo) and math.isfinite(x.hi) and math.floor(x.lo) == math.floor(x.hi):
            return const(math.floor(x.lo))
    elif name == 'round':
        x = a[0]
        n = extra = extra or None
        if x.op == 'c':
            return const(round(x.a, n) if n is not None else round(x.a))
        if x.isint and (n is None or n >= 0):
            return x
        if math.isfinite(x.lo) and math.isfinite(x.hi) and x.hi - x.lo < 1:
            lo = round(Fr(x.lo), n or 0)
            if lo == round(Fr(x.hi), n or 0):
                return const(lo)
        c, t = _parts(x)
        if t and t[0][1] < 0:          # rounding half to even is odd
            return neg(fn('round', neg(x), extra=n))
    elif name in ('max', 'min'):
        s = {}
        for x in a:
            if x.op == 'f' and x.a[0] == name:
                for y in x.a[1:-1]:
                    s[y.id] = y
            else:
                s[x.id] = x
        cs = [x for x in s.values() if x.op == 'c']
        if len(cs) > 1:
            best = max(cs, key=lambda n: n.a) if name == 'max' else min(cs, key=lambda n: n.a)
            for x in cs:
                if x is not best:
                    del s[x.id]
        xs = sorted(s.values(), key=lambda n: n.id)
        # domination by bounds
        if name == 'max':
            m = max(x.lo for x in xs)
            ys = [x for x in xs if not x.hi < m]
        else:
            m = min(x.hi for x in xs)
            ys = [x for x in xs if not x.lo > m]
        if ys:
            xs = ys
        if len(xs) == 1:
            return xs[0]
        a = tuple(xs)
    elif name == 'os':
        a = tuple(sorted(a, key=lambda n: n.id))
        if len(a) == 1:
            return a[0]
        if all(x.op == 'c' for x in a):
            return sorted(a, key=lambda n: n.a)[extra]
        if len(set(a)) == 1:
            return a[0]
        so = sorted(a, key=lambda n: (n.lo, n.hi))
        k = extra
        # decided by bounds?
        if all(so[i].hi <= so[i + 1].lo for i in range(len(so) - 1)):
            return so[k]
    elif name in ('sin', 'tan', 'atan', 'asin', 'sinh', 'tanh', 'erf'):
        x = a[0]
        if x.op == 'c' and x.a == 0:
            return const(0)
        k, core = _core(x)
        if k < 0 and name != 'floor':
            return neg(_mkfn(name, (neg(x),), None))
    elif name == 'cos':
        x = a[0]
        if x.op == 'c' and x.a == 0:
            return const(1)
        k, core = _core(x)
        if k < 0:
            return _mkfn(name, (neg(x),), None)
    elif name == 'csq_re':
        if a[1].op == 'c' and a[1].a == 0 and a[0].lo >= 0:
            return power(a[0], Fr(1, 2))
    elif name == 'csq_im':
        if a[1].op == 'c' and a[1].a == 0 and a[0].lo >= 0:
            return const(0)
    return _mkfn(name, a, extra)


def _logc(k):
    """log of a positive rational through its prime factors"""
    out = []
    for v, sg in ((k.numerator, 1), (k.denominator, -1)):
        p = 2
        while v > 1 and p < 2000:
            e = 0
            while v % p == 0:
                v //= p
                e += 1
            if e:
                out.append(scale(_mkfn('log', (const(p),), None), Fr(e * sg)))
            p += 1 if p == 2 else 2
        if v > 1:
            out.append(scale(_mkfn('log', (const(v),), None), Fr(sg)))
    return addl(out) if out else const(0)


def _logatom(n):
    if n.op == 'f' and n.a[0] == 'exp':
        return n.a[1]
    return _mkfn('log', (n,), None)


def _mkfn(name, a, extra):
    iv = i_fn(name, [(x.lo, x.hi) for x in a], extra)
    isint = name == 'floor' or (name == 'round' and extra is None) or (name in ('max', 'min', 'os') and all(x.isint for x in a))
    if name not in KNOWN_FN:
        T.uninterp.add(name)
    return _mk('f', (name,) + tuple(a) + (extra,), isint, iv)


KNOWN_FN = {'exp', 'log', 'sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'tanh', 'sinh', 'erf', 'erfc', 'floor', 'round',
            'max', 'min', 'csq_re', 'csq_im', 'os', 'powf', 'undef0'}


# ------------------------------------------------------------------ conditions
TRUE = FALSE = None


def cc(b):
    return TRUE if b else FALSE


def _atom(op, u, t):
    key = (op, u, t)
    a = T.atoms.get(key)
    if a is None:
        a = Atom()
        a.op, a.u, a.t, a.id = op, u, t, T_ID()
        a.loc = CURLOC[0]
        T.atoms[key] = a
    return a


def _mkb(atom, hi, lo):
    if hi is lo:
        return hi
    key = (atom, hi, lo)
    b = T.bdds.get(key)
    if b is None:
        b = B(atom, hi, lo, T_ID())
        T.bdds[key] = b
    return b


def lit(atom):
    return _mkb(atom, TRUE, FALSE)


def cite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    key = (f, g, h)
    r = T.itememo.get(key)
    if r is not None:
        return r
    top = f.atom
    for x in (g, h):
        if x.atom is not None and x.atom.id < top.id:
            top = x.atom
    def co(x, v):
        if x.atom is top:
            return x.hi if v else x.lo
        return x
    r = _mkb(top, cite(co(f, 1), co(g, 1), co(h, 1)), cite(co(f, 0), co(g, 0), co(h, 0)))
    T.itememo[key] = r
    return r


def cnot(f):
    return cite(f, FALSE, TRUE)


def cand(f, g):
    return cite(f, g, FALSE)


def cor(f, g):
    return cite(f, TRUE, g)


def boolsym(name):
    return lit(_atom('b', name, None))


def _leaves(n, acc, lim):
    """const-leaf decision node leaves"""
    if n.op == 'ite' and n.cl:
        return _leaves(n.a[1], acc, lim) and _leaves(n.a[2], acc, lim)
    acc.append(n)
    return len(acc) < lim


def _mapcl(n, f, memo):
    if n in memo:
        return memo[n]
    if n.op == 'ite':
        r = cite(n.a[0], _mapcl(n.a[1], f, memo), _mapcl(n.a[2], f, memo))
    else:
        r = f(n)
    memo[n] = r
    return r


def _cmp(op, d):
    """condition  d <op> 0"""
    r = T.cmpmemo.get((op, d))
    if r is None:
        r = _cmp0(op, d)
        T.cmpmemo[(op, d)] = r
    return r


def _cmp0(op, d):
    if d.op == 'c':
        return cc(d.a < 0 if op == 'lt' else d.a <= 0 if op == 'le' else d.a == 0)
    if not isbad((d.lo, d.hi)):
        if op == 'lt':
            if d.hi < 0:
                return TRUE
            if d.lo >= 0:
                return FALSE
        elif op == 'le':
            if d.hi <= 0:
                return TRUE
            if d.lo > 0:
                return FALSE
        else:
            if d.lo > 0 or d.hi < 0:
                return FALSE
    c, ts = _parts(d)
    if len(ts) == 1:
        n, k = ts[0]
        if n.op == 'ite':
            # distribute: exact for any leaves
            if n.cl:
                return _mapcl(n, lambda leaf: _cmp(op, add(scale(leaf, k), const(c))), {})
            x = _cmp(op, add(scale(n.a[1], k), const(c)))
            y = _cmp(op, add(scale(n.a[2], k), const(c)))
            return cite(n.a[0], x, y)
        if n.op == 'f' and n.a[0] in ('max', 'min') and op != 'eq':
            r = None
            conj = (n.a[0] == 'max') == (k > 0)
            for x in n.a[1:-1]:
                q = _cmp(op, add(scale(x, k), const(c)))
                r = q if r is None else (cand(r, q) if conj else cor(r, q))
            return r
        if n.op == 'f' and n.a[0] == 'floor':
            x = n.a[1]
            # floor(x) vs t, t=-c/k
            t = -c / k
            if op == 'eq':
                if t.denominator != 1:
                    return FALSE
                return cand(_cmp('le', sub(const(t), x)), _cmp('lt', sub(x, const(t + 1))))
            if k > 0:       # floor(x) < t  <=> x < ceil(t) ; <= t <=> x < floor(t)+1
                b = math.ceil(t) if op == 'lt' else math.floor(t) + 1
                return _cmp('lt', sub(x, const(b)))
            # floor(x) > t <=> x >= floor(t)+1 ; >= t <=> x >= ceil(t)
            b = math.floor(t) + 1 if op == 'lt' else math.ceil(t)
            return _cmp('le', sub(const(b), x))
        if n.op == 'f' and n.a[0] == 'exp':
            pass
        if n.op == '*':
            # sign analysis against zero: x^(p) compared with 0
            if c == 0 and len(n.a) == 1 and op != 'eq':
                pass
    # normalise: u has leading coeff 1
    k = ts[0][1]
    u = _mksum(Fr(0), {n: q / k for n, q in ts})
    t = -c / k
    if op == 'eq':
        if u.isint and t.denominator != 1:
            return FALSE
        return lit(_atom('eq', u, t))
    if u.isint:
        # only le atoms
        if k > 0:
            tt = math.ceil(t) - 1 if op == 'lt' else math.floor(t)
            return _iat(u, tt)
        # u > t  or u >= t
        tt = math.floor(t) if op == 'lt' else math.ceil(t) - 1
        return cnot(_iat(u, tt))
    if k > 0:
        return lit(_atom(op, u, t))
    return cnot(lit(_atom('le' if op == 'lt' else 'lt', u, t)))


def _iat(u, t):
    if u.hi <= t:
        return TRUE
    if u.lo > t:
        return FALSE
    return lit(_atom('le', u, Fr(t)))


def lt(x, y):
    return _cmp('lt', sub(x, y))


def le(x, y):
    return _cmp('le', sub(x, y))


def eq(x, y):
    return _cmp('eq', sub(x, y))


def ratio(d, e):
    """r with d == r*e, else None"""
    kd, cd = _core(d)
    ke, ce = _core(e)
    if cd is None or ce is None or cd is not ce:
        return None
    return kd / ke


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if x.cl and y.cl:
        return _clite(c, x, y)
    # canonical polarity & max/min
    if c.hi in (TRUE, FALSE) and c.lo in (TRUE, FALSE):
        a = c.atom
        if c.hi is FALSE:
            return ite(cnot(c), y, x)
        if a.op in ('lt', 'le'):
            d = sub(x, y)
            e = sub(a.u, const(a.t))
            r = ratio(d, e)
            if r is not None:
                # u<t picks x, x-y = r*(u-t)
                return fn('min' if r > 0 else 'max', x, y)
        elif a.op == 'eq':
            pass
    nc = cnot(c)
    x = _under(c, x)
    y = _under(nc, y)
    if x is y:
        return x
    if nc.id < c.id:
        c, x, y = nc, y, x
    if isbad((x.lo, x.hi)) or isbad((y.lo, y.hi)):
        iv = (-INF, INF)
    else:
        iv = (min(x.lo, y.lo), max(x.hi, y.hi))
    return _mk('ite', (c, x, y), x.isint and y.isint, iv)


def _under(c, x):
    """outer gates of x that c decides"""
    while x.op == 'ite' and not x.cl:
        if cite(c, x.a[0], TRUE) is TRUE:
            x = x.a[1]
        elif cite(c, x.a[0], FALSE) is FALSE:
            x = x.a[2]
        else:
            break
    return x


def _clite(c, x, y):
    """algebraic decision diagram over constant leaves, atoms ordered by id"""
    memo = {}

    def go(c, x, y):
        if c is TRUE or x is y:
            return x
        if c is FALSE:
            return y
        key = (c, x, y)
        if key in memo:
            return memo[key]
        top = c.atom
        for z in (x, y):
            if z.op == 'ite' and z.a[0].atom.id < top.id:
                top = z.a[0].atom

        def cob(b, v):
            return (b.hi if v else b.lo) if b.atom is top else b

        def con(z, v):
            if z.op == 'ite' and z.a[0].atom is top:
                return z.a[1] if v else z.a[2]
            return z
        h = go(cob(c, 1), con(x, 1), con(y, 1))
        l = go(cob(c, 0), con(x, 0), con(y, 0))
        if h is l:
            r = h
        else:
            r = _mk('ite', (lit(top), h, l), h.isint and l.isint, (min(h.lo, l.lo), max(h.hi, l.hi)))
            r.cl = True
        memo[key] = r
        return r
    return go(c, x, y)


def cabs(x):
    """absolute value"""
    if x.lo >= 0:
        return x
    if x.hi <= 0:
        return neg(x)
    return fn('max', x, neg(x))


# ------------------------------------------------------------------ printing
def show(n, d=6):
    if n.op == 'c':
        return '%g' % float(n.a)
    if n.op == 's':
        return n.a
    if d <= 0:
        return '..'
    if n.op == '+':
        c, ts = n.a
        p = []
        for m, k in ts:
            s = show(m, d - 1)
            p.append(s if k == 1 else '%g*%s' % (float(k), s))
        if c:
            p.append('%g' % float(c))
        return '(' + ' + '.join(p) + ')'
    if n.op == '*':
        return '*'.join(show(m, d - 1) + ('' if e == 1 else '^%s' % e) for m, e in n.a)
    if n.op == 'f':
        return n.a[0] + '(' + ', '.join(show(m, d - 1) for m in n.a[1:-1][:6]) + ')'
    return 'if[%s](%s, %s)' % (showc(n.a[0], d - 1), show(n.a[1], d - 1), show(n.a[2], d - 1))


def showc(b, d=4):
    if b is TRUE:
        return 'true'
    if b is FALSE:
        return 'false'
    if d <= 0:
        return '..'
    a = b.atom
    s = a.u if a.op == 'b' else '%s%s%g' % (show(a.u, d - 1), {'lt': '<', 'le': '<=', 'eq': '=='}[a.op], float(a.t))
    if b.hi is TRUE and b.lo is FALSE:
        return s
    if b.hi is FALSE and b.lo is TRUE:
        return 'not ' + s
    return '(%s ? %s : %s)' % (s, showc(b.hi, d - 1), showc(b.lo, d - 1))


reset()
