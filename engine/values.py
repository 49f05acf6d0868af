"""Abstract values, heap objects, path facts, states and their merge."""
import math
from fractions import Fraction as Fr
from . import nodes as N


class NeedSplit(Exception):
    def __init__(self, c):
        self.c = c


class InterpRaise(Exception):
    def __init__(self, exc, st=None):
        self.exc, self.st = exc, st


class Num:
    __slots__ = ('n', 'i')

    def __init__(self, n, i=False):
        self.n, self.i = n, i

    def __repr__(self):
        return 'Num(%s)' % N.show(self.n)


class Cx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return 'Cx(%s, %s)' % (N.show(self.re), N.show(self.im))


class CondV:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


def cond(c):
    if c is N.TRUE:
        return True
    if c is N.FALSE:
        return False
    return CondV(c)


class Ref:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'Ref%d' % self.id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))


class Choice:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Choice(%s, %r, %r)' % (N.showc(self.c), self.a, self.b)


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Func:
    __slots__ = ('node', 'modns', 'scope', 'defaults', 'kwdefaults', 'name', 'info', 'file', 'mod', 'cls', 'isgen', 'keep')

    def __repr__(self):
        return '<func %s>' % self.name


class Bound:
    __slots__ = ('f', 'self')

    def __init__(self, f, s):
        self.f, self.self = f, s


class Builtin:
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class Part:
    """functools.partial"""
    __slots__ = ('f', 'args', 'kw')

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class Wrapped:
    """decorated: staticmethod, classmethod, property, cached"""
    __slots__ = ('kind', 'f', 'x')

    def __init__(self, kind, f, x=None):
        self.kind, self.f, self.x = kind, f, x


class ClassV:
    __slots__ = ('name', 'bases', 'ns', 'py', 'fields', 'kind', 'standin')

    def __init__(self, name, bases, ns, py=None):
        self.name, self.bases, self.ns, self.py = name, bases, ns, py
        self.fields = None
        self.kind = None
        self.standin = False

    def __repr__(self):
        return '<class %s>' % self.name


class NT:
    """namedtuple instance (immutable)"""
    __slots__ = ('cls', 'items')

    def __init__(self, cls, items):
        self.cls, self.items = cls, tuple(items)


class Mod:
    __slots__ = ('name', 'ref')

    def __init__(self, name, ref=None):
        self.name, self.ref = name, ref

    def __repr__(self):
        return '<mod %s>' % self.name


class Opaque:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Opaque(%s)' % (self.t,)


class Exc:
    __slots__ = ('cls', 'args', 'loc')

    def __init__(self, cls, args=(), loc=None):
        self.cls, self.args, self.loc = cls, args, loc

    def name(self):
        return self.cls.__name__ if isinstance(self.cls, type) else self.cls.name

    def __repr__(self):
        return 'Exc(%s,%r)' % (self.name(), self.args)


class Obj:
    __slots__ = ('kind', 'd', 'x', 'y')

    def __init__(self, kind, d=None, x=None, y=None):
        self.kind, self.d, self.x, self.y = kind, d, x, y

    def __repr__(self):
        return 'Obj(%s,%r)' % (self.kind, self.d)


class Slice:
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


# ------------------------------------------------------------------ facts
class Facts:
    __slots__ = ('lits', 'conds', 'bnd', 'memo')

    def __init__(self, lits=None, conds=None, bnd=None):
        self.lits = lits or {}
        self.conds = conds or {}
        self.bnd = bnd or {}
        self.memo = {}

    def assume(self, c, v=True):
        if c is N.TRUE or c is N.FALSE:
            return self
        f = Facts(dict(self.lits), dict(self.conds), dict(self.bnd))
        f.conds[c.id] = v
        nc = N.cnot(c)
        f.conds[nc.id] = not v
        x = c if v else nc
        while x.atom is not None:
            if x.lo is N.FALSE:
                f._lit(x.atom, True)
                x = x.hi
            elif x.hi is N.FALSE:
                f._lit(x.atom, False)
                x = x.lo
            else:
                f.conds[x.id] = True
                f.conds[N.cnot(x).id] = False
                break
        return f

    def _lit(self, a, v):
        self.lits[a] = v
        if a.op == 'b':
            return
        lo, ls, hi, hs = self.bnd.get(a.u, (None, False, None, False))
        t = a.t
        if a.op == 'eq':
            if v:
                lo, ls, hi, hs = t, False, t, False
            else:
                if lo is not None and lo == t:
                    if a.u.isint:
                        lo = t + 1
                    else:
                        ls = True
                if hi is not None and hi == t:
                    if a.u.isint:
                        hi = t - 1
                    else:
                        hs = True
                if a.u.isint:
                    if lo is None and a.u.lo == t:
                        lo = t + 1
                    if hi is None and a.u.hi == t:
                        hi = t - 1
        elif v:
            s = a.op == 'lt'
            if hi is None or t < hi or (t == hi and s):
                hi, hs = t, s
        else:
            s = a.op == 'le'
            if s and a.u.isint:
                t, s = t + 1, False
            if lo is None or t > lo or (t == lo and s):
                lo, ls = t, s
        self.bnd[a.u] = (lo, ls, hi, hs)

    def iv(self, n, depth=5):
        """interval of node under facts"""
        lo, hi = n.lo, n.hi
        if lo != lo or hi != hi:
            return (-N.INF, N.INF)
        if depth > 0:
            r = None
            if n.op == '+':
                c, ts = n.a
                if len(ts) <= 4:
                    r = N.i_c(c)
                    for m, k in ts:
                        r = N.i_add(r, N.i_mul(N.i_c(k), self.iv(m, depth - 1)))
            elif n.op == '*' and len(n.a) <= 4:
                r = (1.0, 1.0)
                for m, e in n.a:
                    r = N.i_mul(r, N.i_pow(self.iv(m, depth - 1), e))
            elif n.op == 'f' and len(n.a) <= 4:
                r = N.i_fn(n.a[0], [self.iv(m, depth - 1) for m in n.a[1:-1]], n.a[-1])
            elif n.op == 'ite':
                d = self.decide(n.a[0])
                if d is True:
                    r = self.iv(n.a[1], depth - 1)
                elif d is False:
                    r = self.iv(n.a[2], depth - 1)
            if r is not None and not N.isbad(r):
                lo, hi = max(lo, r[0]), min(hi, r[1])
        b = self.bnd.get(n)
        if b is not None:
            if b[0] is not None:
                x = N.i_c(b[0])[0]
                lo = max(lo, x)
            if b[2] is not None:
                x = N.i_c(b[2])[1]
                hi = min(hi, x)
            if n.isint:
                if b[1] and lo == b[0]:
                    lo += 1
                if b[3] and hi == b[2]:
                    hi -= 1
        if n.isint and lo <= hi:
            lo = math.ceil(lo) if math.isfinite(lo) else lo
            hi = math.floor(hi) if math.isfinite(hi) else hi
        if lo > hi:
            return (n.lo, n.hi)
        return (lo, hi)

    def atom(self, a):
        v = self.lits.get(a)
        if v is not None:
            return v
        if a.op == 'b' or (not self.bnd and not self.conds):
            return None
        b = self.bnd.get(a.u)
        if b is not None:
            lo, ls, hi, hs = b
            t = a.t
            if a.op == 'lt':
                if hi is not None and (hi < t or (hi == t and hs)):
                    return True
                if lo is not None and lo >= t:
                    return False
            elif a.op == 'le':
                if hi is not None and hi <= t:
                    return True
                if lo is not None and (lo > t or (lo == t and ls)):
                    return False
            else:
                if hi is not None and (hi < t or (hi == t and hs)):
                    return False
                if lo is not None and (lo > t or (lo == t and ls)):
                    return False
                if lo is not None and lo == hi == t:
                    return True
        lo, hi = self.iv(a.u, 4)
        tl, th = N.i_c(a.t)
        if a.op == 'lt':
            if hi < tl:
                return True
            if lo >= th:
                return False
        elif a.op == 'le':
            if hi <= tl:
                return True
            if lo > th:
                return False
        else:
            if lo > th or hi < tl:
                return False
        return None

    def restrict(self, b):
        if b.atom is None:
            return b
        v = self.conds.get(b.id)
        if v is not None:
            return N.TRUE if v else N.FALSE
        r = self.memo.get(b.id)
        if r is not None:
            return r
        v = self.atom(b.atom)
        if v is True:
            r = self.restrict(b.hi)
        elif v is False:
            r = self.restrict(b.lo)
        else:
            h, l = self.restrict(b.hi), self.restrict(b.lo)
            r = b if (h is b.hi and l is b.lo) else N.cite(N.lit(b.atom), h, l)
            if r is not b and r.atom is not None:
                v = self.conds.get(r.id)
                if v is not None:
                    r = N.TRUE if v else N.FALSE
        self.memo[b.id] = r
        return r

    def decide(self, c):
        if c is N.TRUE:
            return True
        if c is N.FALSE:
            return False
        r = self.restrict(c)
        if r is N.TRUE:
            return True
        if r is N.FALSE:
            return False
        return None

    @staticmethod
    def inter(a, b):
        if a is b:
            return a
        return Facts({k: v for k, v in a.lits.items() if b.lits.get(k) is v},
                     {k: v for k, v in a.conds.items() if b.conds.get(k) is v},
                     {k: v for k, v in a.bnd.items() if b.bnd.get(k) == v})


# ------------------------------------------------------------------ state
class State:
    __slots__ = ('heap', 'facts', 'path', 'faults', 'log')

    def __init__(self):
        self.heap = {}
        self.facts = Facts()
        self.path = ()
        self.faults = ()
        self.log = ()

    def copy(self):
        s = State()
        s.heap = self.heap.copy()
        s.facts = self.facts
        s.path = self.path
        s.faults = self.faults
        s.log = self.log
        return s

    def assume(self, c, v=True):
        s = self.copy()
        s.facts = self.facts.assume(c, v)
        s.path = self.path + ((c if v else N.cnot(c)),)
        return s

    def decide(self, c):
        return self.facts.decide(c)

    def obj(self, ref):
        o = self.heap[ref.id]
        ch = False
        while o.kind == 'choice':
            d = self.decide(o.d)
            if d is True:
                o = o.x
            elif d is False:
                o = o.y
            else:
                raise NeedSplit(o.d)
            ch = True
        if ch:
            self.heap[ref.id] = o
        return o


_alloc = [1]


def alloc(st, o):
    i = _alloc[0]
    _alloc[0] += 1
    st.heap[i] = o
    return Ref(i)


# ------------------------------------------------------------------ merging
def tonode(v):
    if isinstance(v, bool):
        return N.const(int(v))
    if isinstance(v, int):
        return N.const(v)
    if isinstance(v, Num):
        return v.n
    return None


def isnum(v):
    return isinstance(v, (int, Num))


def mknum(n, i):
    """Num, or a python int when constant int"""
    if i and n.op == 'c' and n.a.denominator == 1:
        return int(n.a)
    return Num(n, i)


def same(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is not tb:
        return False
    if ta in (int, str, bool, float, bytes):
        return a == b
    if ta is Num:
        return a.n is b.n and a.i == b.i
    if ta is Cx:
        return a.re is b.re and a.im is b.im
    if ta is CondV:
        return a.c is b.c
    if ta is Ref:
        return a.id == b.id
    if ta is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if ta is Opaque:
        return a.t == b.t
    if ta is Mod:
        return a.name == b.name
    if ta is NT:
        return a.cls is b.cls and same(a.items, b.items)
    if ta is Choice:
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if ta is Bound:
        return a.f is b.f and same(a.self, b.self)
    return False


def merge_val(c, a, b):
    if c is N.TRUE:
        return a
    if c is N.FALSE:
        return b
    if same(a, b):
        return a
    if isinstance(a, Choice) and a.c is c:
        a = a.a
    if isinstance(b, Choice) and b.c is c:
        b = b.b
    if same(a, b):
        return a
    ba, bb = isinstance(a, (bool, CondV)), isinstance(b, (bool, CondV))
    if ba and bb:
        ca = a.c if isinstance(a, CondV) else N.cc(a)
        cb = b.c if isinstance(b, CondV) else N.cc(b)
        return cond(N.cite(c, ca, cb))
    if isinstance(a, (int, Num, CondV)) and isinstance(b, (int, Num, CondV)):
        na = N.ite(a.c, N.const(1), N.const(0)) if isinstance(a, CondV) else tonode(a)
        nb = N.ite(b.c, N.const(1), N.const(0)) if isinstance(b, CondV) else tonode(b)
        ia = not (isinstance(a, Num) and not a.i)
        ib = not (isinstance(b, Num) and not b.i)
        return mknum(N.ite(c, na, nb), ia and ib)
    if isinstance(a, (Cx, int, Num)) and isinstance(b, (Cx, int, Num)):
        ar, ai = (a.re, a.im) if isinstance(a, Cx) else (tonode(a), N.const(0))
        br, bi = (b.re, b.im) if isinstance(b, Cx) else (tonode(b), N.const(0))
        return Cx(N.ite(c, ar, br), N.ite(c, ai, bi))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, NT) and isinstance(b, NT) and a.cls is b.cls and len(a.items) == len(b.items):
        return NT(a.cls, [merge_val(c, x, y) for x, y in zip(a.items, b.items)])
    return Choice(c, a, b)


def merge_obj(c, a, b):
    if a is b:
        return a
    if a.kind == b.kind:
        k = a.kind
        if k in ('list', 'arr', 'ma'):
            if len(a.d) == len(b.d) and a.x == b.x:
                return Obj(k, tuple(x if x is y else merge_val(c, x, y) for x, y in zip(a.d, b.d)), a.x)
        elif k in ('dict', 'set'):
            d = {}
            for key in list(a.d) + [q for q in b.d if q not in a.d]:
                va = a.d.get(key)
                vb = b.d.get(key)
                if va is None:
                    d[key] = (vb[0], N.cand(N.cnot(c), vb[1]), vb[2])
                elif vb is None:
                    d[key] = (va[0], N.cand(c, va[1]), va[2])
                elif va is vb:
                    d[key] = va
                else:
                    if va[1] is N.FALSE:
                        v = vb[0]
                    elif vb[1] is N.FALSE:
                        v = va[0]
                    else:
                        v = merge_val(c, va[0], vb[0])
                    d[key] = (v, N.cite(c, va[1], vb[1]), va[2])
            return Obj(k, d, a.x)
        elif k == 'ns':
            d = {}
            for key in list(a.d) + [q for q in b.d if q not in a.d]:
                x, y = a.d.get(key, UNDEF), b.d.get(key, UNDEF)
                d[key] = x if x is y else merge_val(c, x, y)
            return Obj(k, d, a.x)
        elif k == 'inst' and a.x is b.x:
            d = {}
            for key in list(a.d) + [q for q in b.d if q not in a.d]:
                x, y = a.d.get(key, UNDEF), b.d.get(key, UNDEF)
                d[key] = x if x is y else merge_val(c, x, y)
            return Obj(k, d, a.x)
        elif k == 'iter' and a.x == b.x and len(a.d) == len(b.d):
            return Obj(k, tuple(merge_val(c, x, y) for x, y in zip(a.d, b.d)), a.x)
    return Obj('choice', c, a, b)


def _subst_val(v, m):
    if isinstance(v, Ref):
        return Ref(m[v.id]) if v.id in m else v
    if isinstance(v, tuple):
        return tuple(_subst_val(x, m) for x in v)
    if isinstance(v, Choice):
        return Choice(v.c, _subst_val(v.a, m), _subst_val(v.b, m))
    if isinstance(v, Bound):
        return Bound(v.f, _subst_val(v.self, m))
    if isinstance(v, NT):
        return NT(v.cls, [_subst_val(x, m) for x in v.items])
    return v


def _subst_obj(o, m):
    k = o.kind
    if k == 'choice':
        return Obj(k, o.d, _subst_obj(o.x, m), _subst_obj(o.y, m))
    if k in ('list', 'arr', 'iter', 'ma'):
        return Obj(k, tuple(_subst_val(x, m) for x in o.d), o.x)
    if k in ('dict', 'set'):
        return Obj(k, {q: (_subst_val(v[0], m), v[1], _subst_val(v[2], m)) for q, v in o.d.items()}, o.x)
    return Obj(k, {q: _subst_val(v, m) for q, v in o.d.items()}, o.x)


def _prefix(a, b):
    n = 0
    for x, y in zip(a, b):
        if x is not y:
            break
        n += 1
    return n


def merge_states(c, sa, sb, vals, parent, pcond):
    """state after a fork: sa holds under c, sb under not c (both extending parent)"""
    ha, hb = sa.heap, sb.heap
    pa, pb, bad = {}, {}, set()
    work = []

    def pairs_obj(oa, ob):
        if oa.kind != ob.kind:
            return
        k = oa.kind
        if k in ('list', 'arr', 'iter', 'ma'):
            if len(oa.d) == len(ob.d):
                for x, y in zip(oa.d, ob.d):
                    if x is not y:
                        work.append((x, y))
        elif k in ('dict', 'set'):
            for q, v in oa.d.items():
                w = ob.d.get(q)
                if w is not None and w is not v:
                    work.append((v[0], w[0]))
        elif k in ('ns', 'inst'):
            for q, v in oa.d.items():
                w = ob.d.get(q)
                if w is not None and w is not v:
                    work.append((v, w))
    for va, vb in vals:
        work.append((va, vb))
    diff = []
    for i, o in ha.items():
        p = hb.get(i)
        if p is not None and p is not o:
            diff.append(i)
            pairs_obj(o, p)
    ph = parent.heap
    while work:
        x, y = work.pop()
        if x is y:
            continue
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x.id == y.id or x.id in ph or y.id in ph or x.id in hb or y.id in ha:
                continue
            oa, ob = ha.get(x.id), hb.get(y.id)
            if oa is None or ob is None or oa.kind != ob.kind:
                continue
            if oa.kind in ('list', 'arr', 'iter', 'ma') and len(oa.d) != len(ob.d):
                continue
            if oa.kind == 'choice' or (oa.kind == 'inst' and oa.x is not ob.x):
                continue
            if pa.get(x.id, y.id) != y.id or pb.get(y.id, x.id) != x.id:
                bad.add(x.id)
                bad.add(y.id)
                continue
            if x.id in pa:
                continue
            pa[x.id] = y.id
            pb[y.id] = x.id
            pairs_obj(oa, ob)
        elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            work.extend(zip(x, y))
        elif isinstance(x, NT) and isinstance(y, NT):
            work.extend(zip(x.items, y.items))
    m = {b: a for b, a in pb.items() if b not in bad and a not in bad}
    out = State()
    heap = dict(ha)
    for i, o in hb.items():
        if i in m:
            continue
        p = ha.get(i)
        if p is None:
            heap[i] = _subst_obj(o, m) if m else o
    for i in diff:
        o = hb[i]
        heap[i] = merge_obj(c, ha[i], _subst_obj(o, m) if m else o)
    for b, a in m.items():
        heap[a] = merge_obj(c, ha[a], _subst_obj(hb[b], m))
    out.heap = heap
    out.facts = Facts.inter(sa.facts, sb.facts)
    out.path = parent.path + ((pcond,) if pcond is not N.TRUE else ())
    k = _prefix(sa.faults, sb.faults)
    out.faults = sa.faults + sb.faults[k:]
    k = _prefix(sa.log, sb.log)
    out.log = sa.log + sb.log[k:]
    res = [merge_val(c, va, _subst_val(vb, m) if m else vb) for va, vb in vals]
    return out, res
