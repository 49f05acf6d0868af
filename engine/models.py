"""Abstract meaning of the Python builtins and library functions the analysed code may use."""
import ast
import math
import re
from fractions import Fraction as Fr
from . import nodes as N
from .nodes import Unsupported
from .values import (NeedSplit, InterpRaise, Num, Cx, CondV, cond, Ref, Choice, UNDEF, Func, Bound, Builtin, Part,
                     Wrapped, ClassV, NT, Mod, Opaque, Exc, Obj, Slice, alloc, tonode, isnum, mknum, same, merge_val)

PI = N.const


def fl(x):
    return Fr(repr(x))


def B(name):
    def d(f):
        BUILTINS[name] = Builtin(name, f)
        return f
    return d


BUILTINS = {}
EXC = [BaseException, Exception, ArithmeticError, AssertionError, AttributeError, EOFError, FloatingPointError, ImportError,
       IndexError, KeyError, KeyboardInterrupt, LookupError, MemoryError, ModuleNotFoundError, NameError,
       NotImplementedError, OSError, IOError, OverflowError, RecursionError, RuntimeError, StopIteration, SyntaxError,
       SystemExit, TypeError, UnboundLocalError, UnicodeError, ValueError, ZeroDivisionError, FileNotFoundError,
       FileExistsError, PermissionError, Warning, UserWarning, DeprecationWarning, RuntimeWarning, FutureWarning]
for _e in EXC:
    BUILTINS[_e.__name__] = _e
BUILTINS['IOError'] = OSError
BUILTINS['NotImplemented'] = Opaque(('NotImplemented',))
BUILTINS['Ellipsis'] = Ellipsis
BUILTINS['__name__'] = '__itm__'
BUILTINS['__file__'] = Opaque(('__file__',))
BUILTINS['__debug__'] = True


# ------------------------------------------------------------------ helpers
def arrlike(I, v, st):
    """list of elements when v is an array/list/tuple, else None"""
    v = I.norm(v, st)
    if isinstance(v, Choice):
        raise NeedSplit(v.c)
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind in ('arr', 'list', 'iter', 'ma'):
            return I.iterate(v, st) if o.kind == 'iter' else list(o.d)
        if o.kind == 'inst' and getattr(o.x, 'standin', False):
            raise Unsupported('numpy operation on an external object')
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, Obj) and v.kind == 'range':
        return list(v.d)
    return None


def mkarr(st, xs):
    return alloc(st, Obj('arr', tuple(xs)))


def mklist(st, xs):
    return alloc(st, Obj('list', tuple(xs)))


def elementwise(f):
    """numpy-style lifting"""
    def g(I, st, args, kw):
        args = [I.force(a, st) for a in args]
        ls = [arrlike(I, a, st) for a in args]
        if all(x is None for x in ls):
            return f(I, st, *args)
        n = max(len(x) for x in ls if x is not None)
        for i, x in enumerate(ls):
            if x is None:
                ls[i] = [args[i]] * n
            elif len(x) == 1 and n > 1:
                ls[i] = x * n
            elif len(x) != n:
                raise I.err(ValueError, 'broadcast', st)
        out = []
        for t in zip(*ls):
            if any(isinstance(I.norm(q, st), Ref) for q in t):
                raise Unsupported('nested array')
            out.append(f(I, st, *t))
        return mkarr(st, out)
    return g


def isinf_(v):
    return isinstance(v, Opaque) and v.t[:1] == ('float',)


def m_sqrt(kind):
    def f(I, st, v):
        v = I.norm(v, st)
        if isinstance(v, Cx):
            if kind == 'math':
                raise I.err(TypeError, 'complex', st)
            return Cx(N.fn('csq_re', v.re, v.im), N.fn('csq_im', v.re, v.im))
        if isinf_(v):
            return v
        x = I.num(v, st)
        if kind == 'cmath':
            return Cx(N.fn('csq_re', x, N.const(0)), N.fn('csq_im', x, N.const(0)))
        if x.op == 'c' and x.a < 0:
            if kind == 'math':
                raise I.err(ValueError, 'math domain error', st)
        if not x.lo >= 0:
            I.fault(st, 'ValueError' if kind == 'math' else 'nan', N.lt(x, N.const(0)))
        return Num(N.power(x, Fr(1, 2)))
    return f


def m_log(kind, base=None):
    def f(I, st, v, b=None):
        v = I.norm(v, st)
        if isinstance(v, Cx) or kind == 'cmath':
            z = I.cx(v, st)
            r = N.scale(N.fn('log', N.add(N.power(z.re, 2), N.power(z.im, 2))), Fr(1, 2))
            im = m_atan2(I, st, Num(z.im), Num(z.re)).n
            return Cx(r, im)
        if isinf_(v):
            return v
        x = I.num(v, st)
        if x.op == 'c' and x.a <= 0:
            if kind == 'math':
                raise I.err(ValueError, 'math domain error', st)
        if not x.lo > 0:
            I.fault(st, 'ValueError' if kind == 'math' else 'nan', N.le(x, N.const(0)))
        r = N.fn('log', x)
        if base is not None:
            r = N.div(r, N.fn('log', N.const(base)))
        elif b is not None:
            r = N.div(r, N.fn('log', I.num(b, st)))
        return Num(r)
    return f


def m_exp(I, st, v):
    v = I.norm(v, st)
    if isinstance(v, Cx):
        e = N.fn('exp', v.re)
        return Cx(N.mul(e, N.fn('cos', v.im)), N.mul(e, N.fn('sin', v.im)))
    x = I.num(v, st)
    if x.hi > 709.7:
        I.fault(st, 'OverflowError', N.lt(N.const(709), x))
    return Num(N.fn('exp', x))


def m_abs(I, st, v):
    v = I.norm(v, st)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return abs(v)
    if isinstance(v, Cx):
        return Num(I.cxabs(v))
    if isinf_(v):
        return Opaque(('float', v.t[1].lstrip('-')))
    if isinstance(v, Choice):
        raise NeedSplit(v.c)
    if isinstance(v, Ref) and st.obj(v).kind == 'arr':
        return mkarr(st, [m_abs(I, st, x) for x in st.obj(v).d])
    if isinstance(v, Ref) and st.obj(v).kind == 'inst':
        m = I.class_attr(st.obj(v).x, '__abs__', st)
        if m:
            return I.call(Bound(m, v), [], {}, st)
    n = I.num(v, st)
    d = st.decide(N.lt(n, N.const(0)))
    if d is True:
        return mknum(N.neg(n), I.isint(v))
    if d is False:
        return mknum(n, I.isint(v))
    return mknum(N.cabs(n), I.isint(v))


def plain(name):
    def f(I, st, v):
        v = I.norm(v, st)
        if isinstance(v, Cx):
            if name == 'sin':
                return Cx(N.mul(N.fn('sin', v.re), cosh_(v.im)), N.mul(N.fn('cos', v.re), N.fn('sinh', v.im)))
            raise Unsupported('complex ' + name)
        return Num(N.fn(name, I.num(v, st)))
    return f


def cosh_(x):
    e = N.fn('exp', x)
    return N.scale(N.add(e, N.power(e, -1)), Fr(1, 2))


def m_atan2(I, st, y, x):
    y, x = I.num(y, st), I.num(x, st)
    if x.lo > 0:
        return Num(N.fn('atan', N.div(y, x)))
    return Num(N.fn('atan2', y, x))


def m_hypot(I, st, *vs):
    return Num(N.power(N.addl([N.power(I.num(v, st), 2) for v in vs]), Fr(1, 2)))


def m_floor(I, st, v):
    v = I.norm(v, st)
    if isinstance(v, int):
        return int(v)
    return mknum(N.fn('floor', I.num(v, st)), True)


def m_ceil(I, st, v):
    v = I.norm(v, st)
    if isinstance(v, int):
        return int(v)
    return mknum(N.neg(N.fn('floor', N.neg(I.num(v, st)))), True)


def m_trunc(I, st, v):
    v = I.norm(v, st)
    if isinstance(v, int):
        return int(v)
    x = I.num(v, st)
    if isinstance(v, Num) and v.i:
        return v
    if x.isint:
        return mknum(x, True)
    d = st.decide(N.lt(x, N.const(0)))
    if d is False or x.lo >= 0:
        return mknum(N.fn('floor', x), True)
    if d is True:
        return mknum(N.neg(N.fn('floor', N.neg(x))), True)
    return mknum(N.ite(N.lt(x, N.const(0)), N.neg(N.fn('floor', N.neg(x))), N.fn('floor', x)), True)


def asfloat(f):
    def g(I, st, *a):
        r = f(I, st, *a)
        return Num(tonode(r), False)
    return g


def m_copysign(I, st, a, b):
    x, y = N.cabs(I.num(a, st)), I.num(b, st)
    return Num(N.ite(N.lt(y, N.const(0)), N.neg(x), x))


def m_sign(I, st, v):
    x = I.num(v, st)
    z = N.const(0)
    r = N.ite(N.lt(x, z), N.const(-1), N.ite(N.eq(x, z), z, N.const(1)))
    return mknum(r, I.isint(I.norm(v, st)))


def m_scale(k):
    def f(I, st, v):
        return Num(N.mul(I.num(v, st), N.const(k)))
    return f


def m_pow(I, st, a, b):
    a, b = I.norm(a, st), I.norm(b, st)
    if isinstance(a, int):
        a = Num(N.const(int(a)))
    return I.binop(ast.Pow(), a, b, st)


def m_fmod(I, st, a, b):
    x, y = I.num(a, st), I.num(b, st)
    q = I.div(x, y, st)
    t = tonode(m_trunc(I, st, Num(q)))
    return Num(N.sub(x, N.mul(y, t)))


def m_isnan(I, st, v):
    v = I.norm(v, st)
    if isinf_(v):
        return v.t[1] == 'nan'
    if isinstance(v, Opaque):
        return cond(N.boolsym('isnan:' + repr(v.t)[:200]))
    if isinstance(v, (Num, int, CondV)):
        return False
    return False


def m_isinf(I, st, v):
    v = I.norm(v, st)
    if isinf_(v):
        return v.t[1] != 'nan'
    return False


def m_isfinite(I, st, v):
    v = I.norm(v, st)
    if isinf_(v):
        return False
    return True


def m_isclose(I, st, args, kw):
    a, b = I.num(args[0], st), I.num(args[1], st)
    rt = I.num(kw['rel_tol'], st) if 'rel_tol' in kw else N.const(Fr(1, 10 ** 9))
    at = I.num(kw['abs_tol'], st) if 'abs_tol' in kw else N.const(0)
    d = N.cabs(N.sub(a, b))
    return cond(N.le(d, N.fn('max', N.mul(rt, N.fn('max', N.cabs(a), N.cabs(b))), at)))


def m_log1p(I, st, v):
    return m_log('math')(I, st, Num(N.add(I.num(v, st), N.const(1))))


def m_expm1(I, st, v):
    return Num(N.sub(N.fn('exp', I.num(v, st)), N.const(1)))


def m_cosh(I, st, v):
    return Num(cosh_(I.num(v, st)))


def m_cbrt(I, st, v):
    x = I.num(v, st)
    if x.lo >= 0:
        return Num(N.power(x, Fr(1, 3)))
    return Num(N.ite(N.lt(x, N.const(0)), N.neg(N.power(N.neg(x), Fr(1, 3))), N.power(x, Fr(1, 3))))


def total(I, st, xs, start=0):
    acc = start
    nodes = []
    ii = I.isint(acc)
    if isinstance(acc, (int, Num)) and all(isinstance(x, (int, Num)) for x in xs):
        nodes = [tonode(acc)] + [tonode(x) for x in xs]
        return mknum(N.addl(nodes), ii and all(I.isint(x) for x in xs))
    for x in xs:
        acc = I.binop(ast.Add(), acc, x, st)
    return acc


def m_prod(I, st, xs, start=1):
    acc = start
    for x in xs:
        acc = I.binop(ast.Mult(), acc, x, st)
    return acc


def best(I, st, xs, key, mx, default=UNDEF):
    if not xs:
        if default is not UNDEF:
            return default
        raise I.err(ValueError, 'empty sequence', st)
    if key is not None:
        ks = [I.call(key, [x], {}, st) for x in xs]
    else:
        ks = xs
    bv, bk = xs[0], ks[0]
    for v, k in zip(xs[1:], ks[1:]):
        # max keeps the first maximal element
        c = I.truth(I.compare(ast.Gt() if mx else ast.Lt(), k, bk, st), st)
        d = st.decide(c)
        if d is True:
            bv, bk = v, k
        elif d is None:
            bv, bk = merge_val(c, v, bv), merge_val(c, k, bk)
            if isinstance(bk, Choice):
                raise NeedSplit(c)
    return bv


def argbest(I, st, xs, mx):
    if not xs:
        raise I.err(ValueError, 'empty', st)
    bi, bk = 0, xs[0]
    for i, k in enumerate(xs[1:], 1):
        c = I.truth(I.compare(ast.Gt() if mx else ast.Lt(), k, bk, st), st)
        d = st.decide(c)
        if d is True:
            bi, bk = i, k
        elif d is None:
            bi, bk = merge_val(c, i, bi), merge_val(c, k, bk)
    return bi


def dosort(I, st, xs, key=None, reverse=False):
    ks = [I.call(key, [x], {}, st) for x in xs] if key is not None else list(xs)
    ks = [I.norm(k, st) for k in ks]
    if key is None and all(isinstance(k, (int, Num)) for k in ks):
        ns = [tonode(k) for k in ks]
        if not all(n.op == 'c' for n in ns):
            so = sorted(range(len(ns)), key=lambda i: (st.facts.iv(ns[i])[0], st.facts.iv(ns[i])[1]))
            dec = all(ns[so[i]] is ns[so[i + 1]] or st.facts.iv(ns[so[i]])[1] <= st.facts.iv(ns[so[i + 1]])[0] for i in range(len(so) - 1))
            if dec:
                out = [xs[i] for i in so]
                return out[::-1] if reverse else out
            if len(ns) <= 3:
                pass
            ii = all(I.isint(k) for k in ks)
            out = [mknum(N.fn('os', *ns, extra=j), ii) for j in range(len(ns))]
            return out[::-1] if reverse else out
    idx = []
    order = range(len(xs))
    for i in order:
        j = len(idx)
        while j > 0:
            a, b = ks[i], ks[idx[j - 1]]
            c = I.truth(I.compare(ast.Gt() if reverse else ast.Lt(), a, b, st), st)
            d = st.decide(c)
            if d is None:
                raise NeedSplit(c)
            if not d:
                break
            j -= 1
        idx.insert(j, i)
    return [xs[i] for i in idx]


# ------------------------------------------------------------------ builtins
@B('abs')
def _(I, st, a, k):
    return m_abs(I, st, a[0])


@B('print')
def _(I, st, a, k):
    if I.listening is not None:
        f = I.force(k['file'], st) if 'file' in k else None
        if f is not None:
            if isinstance(f, Opaque) and dotted(f.t) == 'sys.stderr':
                return None
            if not (isinstance(f, Opaque) and dotted(f.t) == 'sys.stdout'):
                raise Unsupported('print to a file')
        sep = I.force(k['sep'], st) if k.get('sep') is not None else ' '
        end = I.force(k['end'], st) if k.get('end') is not None else '\n'
        ps = []
        for i, x in enumerate(a):
            ps += (parts(I, st, sep) if i else []) + hole(I, st, x)
        heard(I, st, ps + parts(I, st, end))
    return None


def heard(I, st, ps):
    """printed text, kept as lines: the text with marks for the values, and the values"""
    o = st.obj(I.listening)
    d = dict(o.d)
    line, vals = '', []
    whole = False
    for p in ps:
        if not isinstance(p, str):
            line += '\x00'
            vals.append(p[1])
            continue
        for i, t in enumerate(p.split('\n')):
            if i:
                if line.strip():
                    d[line] = (tuple(unkey(I, st, v) for v in vals), N.TRUE, line)
                line, vals = '', []
            line += t
    if line.strip():
        raise Unsupported('a line printed in pieces')
    st.heap[I.listening.id] = Obj('dict', d)


def unkey(I, st, x):
    if isinstance(x, tuple) and x[:1] == ('n',):
        return Num(x[1])
    if isinstance(x, tuple) and x[:1] == ('q',):
        return Num(N.const(x[1]))
    if isinstance(x, (int, str)):
        return x
    return Opaque(('text', x))


@B('len')
def _(I, st, a, k):
    v = I.force(a[0], st)
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if isinstance(v, NT):
        return len(v.items)
    if isinstance(v, Obj) and v.kind == 'range':
        return len(v.d)
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind in ('list', 'arr'):
            return len(o.d)
        if o.kind in ('dict', 'set'):
            if all(x[1] is N.TRUE for x in o.d.values()):
                return len(o.d)
            return len(I.dict_items(v, st))
        if o.kind == 'inst':
            m = I.class_attr(o.x, '__len__', st)
            if m is not None:
                return I.call(Bound(m, v), [], {}, st)
    if isinstance(v, Opaque):
        return Num(N.sym('ext:len:' + repr(v.t)[:200], 0, N.INF, True), True)
    I.outside(v, st, 'len')
    raise I.err(TypeError, 'len', st)


@B('range')
def _(I, st, a, k):
    v = [I.conc_int(x, st) for x in a]
    if len(v) == 3 and v[2] == 0:
        raise I.err(ValueError, 'range step', st)
    r = range(*v)
    if len(r) > 50000:
        raise Unsupported('huge range')
    return Obj('range', r)


@B('min')
def _(I, st, a, k):
    xs = I.iterate(a[0], st) if len(a) == 1 else list(a)
    return best(I, st, [I.norm(x, st) for x in xs], k.get('key'), False, k.get('default', UNDEF))


@B('max')
def _(I, st, a, k):
    xs = I.iterate(a[0], st) if len(a) == 1 else list(a)
    return best(I, st, [I.norm(x, st) for x in xs], k.get('key'), True, k.get('default', UNDEF))


@B('sum')
def _(I, st, a, k):
    return total(I, st, I.iterate(a[0], st), a[1] if len(a) > 1 else k.get('start', 0))


@B('enumerate')
def _(I, st, a, k):
    s = I.conc_int(a[1] if len(a) > 1 else k.get('start', 0), st)
    return alloc(st, Obj('iter', tuple((i, x) for i, x in enumerate(I.iterate(a[0], st), s)), 0))


@B('zip')
def _(I, st, a, k):
    ls = [I.iterate(x, st) for x in a]
    if k.get('strict') is True and len({len(x) for x in ls}) > 1:
        raise I.err(ValueError, 'zip', st)
    return alloc(st, Obj('iter', tuple(zip(*ls)), 0))


@B('map')
def _(I, st, a, k):
    out = [I.call(a[0], list(t), {}, st) for t in zip(*[I.iterate(x, st) for x in a[1:]])]
    return alloc(st, Obj('iter', tuple(out), 0))


@B('filter')
def _(I, st, a, k):
    out = []
    for x in I.iterate(a[1], st):
        c = I.truth(x if a[0] is None else I.call(a[0], [x], {}, st), st)
        d = st.decide(c)
        if d is None:
            raise NeedSplit(c)
        if d:
            out.append(x)
    return alloc(st, Obj('iter', tuple(out), 0))


@B('reversed')
def _(I, st, a, k):
    return alloc(st, Obj('iter', tuple(reversed(I.iterate(a[0], st))), 0))


@B('sorted')
def _(I, st, a, k):
    r = k.get('reverse', False)
    return mklist(st, dosort(I, st, I.iterate(a[0], st), k.get('key'), I.force(r, st) is True or I.force(r, st) == 1))


@B('list')
def _(I, st, a, k):
    return mklist(st, I.iterate(a[0], st) if a else ())


@B('tuple')
def _(I, st, a, k):
    return tuple(I.iterate(a[0], st)) if a else ()


@B('set')
def _(I, st, a, k):
    return I.mkset(I.iterate(a[0], st) if a else [], st)


BUILTINS['frozenset'] = BUILTINS['set']


def mkdict(I, st, pairs=()):
    r = alloc(st, Obj('dict', {}))
    for q, v in pairs:
        I.dict_set(r, q, v, st)
    return r


def dict_update(I, st, ref, v):
    v = I.force(v, st)
    if isinstance(v, Ref) and st.obj(v).kind in ('dict', 'set'):
        for q, (x, p, orig) in list(st.obj(v).d.items()):
            d = st.decide(p)
            if d is True:
                I.dict_set(ref, orig, x, st)
            elif d is None:
                kk = I.dict_find(ref, orig, st)
                o = st.obj(ref)
                dd = dict(o.d)
                if kk is None:
                    dd[q] = (x, p, orig)
                else:
                    ov, op, oo = dd[kk]
                    dd[kk] = (merge_val(p, x, ov), N.cor(p, op), oo)
                st.heap[ref.id] = Obj(o.kind, dd, o.x)
        return
    if isinstance(v, Opaque):
        raise Unsupported('update from external value')
    if st.obj(ref).kind == 'set':
        for x in I.iterate(v, st):
            I.dict_set(ref, x, None, st)
        return
    for pr in I.iterate(v, st):
        q, x = I.iterate(pr, st)
        I.dict_set(ref, q, x, st)


@B('dict')
def _(I, st, a, k):
    r = alloc(st, Obj('dict', {}))
    if a:
        dict_update(I, st, r, a[0])
    for q, v in k.items():
        I.dict_set(r, q, v, st)
    return r


@B('int')
def _(I, st, a, k):
    if not a:
        return 0
    v = I.force(a[0], st)
    if len(a) > 1 or k:
        raise Unsupported('int with base')
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise I.err(ValueError, 'int', st)
    if isinstance(v, CondV):
        return Num(N.ite(v.c, N.const(1), N.const(0)), True)
    if isinf_(v):
        raise I.err(ValueError, 'int of inf', st)
    if isinstance(v, Opaque):
        return Num(tonode(m_trunc(I, st, Num(I.opq(v)))), True)
    return m_trunc(I, st, v)


@B('float')
def _(I, st, a, k):
    if not a:
        return Num(N.const(0))
    v = I.force(a[0], st)
    if isinstance(v, str):
        s = v.strip().lower()
        if s in ('inf', '+inf', 'infinity'):
            return Opaque(('float', 'inf'))
        if s in ('-inf', '-infinity'):
            return Opaque(('float', '-inf'))
        if s == 'nan':
            return Opaque(('float', 'nan'))
        try:
            float(s)
            return Num(N.const(Fr(s)))
        except ValueError:
            raise I.err(ValueError, 'float', st)
    if isinstance(v, Opaque) and v.t[:1] == ('str',):
        v = si_unstr(I, st, [v], {})       # reading back the plain text of a number
    if isinf_(v):
        return v
    if isinstance(v, Cx):
        raise I.err(TypeError, 'float of complex', st)
    if v is None:
        raise I.err(TypeError, 'float of None', st)
    return Num(I.num(v, st), False)


@B('complex')
def _(I, st, a, k):
    a = list(a) + ([k['real']] if 'real' in k and not a else []) + ([k['imag']] if 'imag' in k else [])
    if not a:
        return Cx(N.const(0), N.const(0))
    x = I.force(a[0], st)
    if len(a) == 1:
        return I.cx(x, st)
    y = I.force(a[1], st)
    x, y = I.cx(x, st), I.cx(y, st)
    return Cx(N.sub(x.re, y.im), N.add(x.im, y.re))


@B('bool')
def _(I, st, a, k):
    return cond(I.truth(a[0], st)) if a else False


@B('round')
def _(I, st, a, k):
    v = I.force(a[0], st)
    nd = a[1] if len(a) > 1 else k.get('ndigits')
    if nd is None:
        if isinstance(v, int):
            return int(v)
        return mknum(N.fn('round', I.num(v, st), extra=None), True)
    nd = I.conc_int(nd, st)
    if isinstance(v, int) and nd >= 0:
        return v
    if isinstance(v, Num) and v.i and nd >= 0:
        return v
    return Num(N.fn('round', I.num(v, st), extra=nd))


@B('pow')
def _(I, st, a, k):
    if len(a) == 3:
        return pow(*[I.conc_int(x, st) for x in a])
    return I.binop(ast.Pow(), a[0], a[1], st)


@B('divmod')
def _(I, st, a, k):
    return (I.binop(ast.FloorDiv(), a[0], a[1], st), I.binop(ast.Mod(), a[0], a[1], st))


@B('any')
def _(I, st, a, k):
    r = N.FALSE
    for x in I.iterate(a[0], st):
        r = N.cor(r, I.truth(x, st))
    return cond(r)


@B('all')
def _(I, st, a, k):
    r = N.TRUE
    for x in I.iterate(a[0], st):
        r = N.cand(r, I.truth(x, st))
    return cond(r)


def typename(I, st, v):
    v = I.norm(v, st)
    if isinstance(v, Choice):
        raise NeedSplit(v.c)
    if v is None:
        return 'NoneType'
    if isinstance(v, (bool, CondV)):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, Num):
        return 'int' if v.i else 'float'
    if isinstance(v, Cx):
        return 'complex'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, bytes):
        return 'bytes'
    if isinstance(v, tuple):
        return 'tuple'
    if isinstance(v, Ref):
        k = st.obj(v).kind
        return {'arr': 'ndarray', 'iter': 'generator'}.get(k, k)
    if isinf_(v):
        return 'float'
    if isinstance(v, Obj) and v.kind == 'range':
        return 'range'
    if isinstance(v, (Func, Bound)):
        return 'function'
    return None


NUMABC = {'Number': {'int', 'float', 'complex', 'bool'}, 'Complex': {'int', 'float', 'complex', 'bool'},
          'Real': {'int', 'float', 'bool'}, 'Rational': {'int', 'bool'}, 'Integral': {'int', 'bool'},
          'Mapping': {'dict'}, 'MutableMapping': {'dict'}, 'Sequence': {'list', 'tuple', 'str', 'range'},
          'Iterable': {'list', 'tuple', 'str', 'dict', 'set', 'ndarray', 'range', 'generator'},
          'ndarray': {'ndarray'}, 'float64': {'float'}, 'floating': set(), 'integer': set(), 'generic': set(),
          'complexfloating': set()}


@B('isinstance')
def _(I, st, a, k):
    v = I.force(a[0], st)
    spec = I.force(a[1], st)
    return isinst(I, st, v, spec)


def isinst(I, st, v, spec):
    if isinstance(spec, tuple):
        rs = [isinst(I, st, v, I.force(s, st)) for s in spec]
        return any(r is True for r in rs)
    t = typename(I, st, v)
    if isinstance(spec, Builtin):
        n = spec.name.split('.')[-1]
        if n == t:
            return True
        if n == 'int' and t == 'bool':
            return True
        if n == 'array' and t == 'ndarray':
            return True
        if n in NUMABC and t in NUMABC[n]:
            return True
        if n == 'object':
            return True
        return False
    if isinstance(spec, ClassV):
        c = None
        if isinstance(v, Ref) and st.obj(v).kind == 'inst':
            c = st.obj(v).x
        elif isinstance(v, NT):
            c = v.cls
        elif isinstance(v, Exc) and isinstance(v.cls, ClassV):
            c = v.cls

        def sub(c):
            return c is spec or any(sub(b) for b in c.bases)
        return c is not None and sub(c)
    if isinstance(spec, type):
        return isinstance(v, Exc) and isinstance(v.cls, type) and issubclass(v.cls, spec)
    if isinstance(spec, Opaque):
        n = dotted(spec.t).split('.')[-1]
        if n in NUMABC:
            return t in NUMABC[n]
        if isinstance(v, Opaque):
            return cond(N.boolsym('isinst:%r:%r' % (v.t, spec.t)))
        return False
    return False


@B('issubclass')
def _(I, st, a, k):
    c = I.force(a[0], st)
    spec = I.force(a[1], st)
    for s in (spec if isinstance(spec, tuple) else (spec,)):
        s = I.force(s, st)
        if isinstance(c, Builtin) and isinstance(s, Builtin):
            n, t = s.name.split('.')[-1], c.name.split('.')[-1]
            if n == t or n == 'object' or (n, t) == ('int', 'bool'):
                return True
        elif isinstance(c, Builtin) and isinstance(s, Opaque) and dotted(s.t).split('.')[-1] in NUMABC:
            if c.name.split('.')[-1] in NUMABC[dotted(s.t).split('.')[-1]]:
                return True
        elif isinstance(c, type) and isinstance(s, type):
            if issubclass(c, s):
                return True
        elif isinstance(c, Builtin) and isinstance(s, (ClassV, type)):
            pass
        else:
            raise Unsupported('issubclass')
    return False


@B('type')
def _(I, st, a, k):
    if len(a) != 1:
        raise Unsupported('type()')
    v = I.force(a[0], st)
    if isinstance(v, Ref) and st.obj(v).kind == 'inst':
        return st.obj(v).x
    t = typename(I, st, v)
    if t in BUILTINS:
        return BUILTINS[t]
    if t == 'NoneType':
        return Opaque(('type', 'NoneType'))
    if isinstance(v, Exc):
        return v.cls
    return Opaque(('type', t))


# strings with symbolic parts: Opaque(('str', part, ...)), a part being text or ('hole', picture of the value, format)
def parts(I, st, v):
    if isinstance(v, str):
        return [v]
    if isinstance(v, Opaque) and v.t[:1] == ('str',):
        return list(v.t[1:])
    return [('hole', I.deepkey(v, st), None)]


def sstr(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '':
            out.append(p)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Opaque(('str',) + tuple(out))


def hole(I, st, v, spec=None, conv=-1):
    v = I.force(v, st)
    if conv in (-1, 115, 's', None):
        if isinstance(v, str):
            return [format(v, spec or '')]
        if isinstance(v, int) and not isinstance(v, bool):
            try:
                return [format(v, spec or '')]
            except ValueError:
                raise I.err(ValueError, 'format', st)
        if not spec and isinstance(v, Opaque):
            return parts(I, st, v)
        if not spec and isinstance(v, Ref) and st.obj(v).kind == 'inst' and I.class_attr(st.obj(v).x, '__str__', st) is not None:
            return parts(I, st, I.call(Bound(I.class_attr(st.obj(v).x, '__str__', st), v), [], {}, st))
        return [('hole', I.deepkey(v, st), spec or None)]
    return [('hole', I.deepkey(v, st), (spec, conv))]


def fmt(I, st, b, a, k):
    import string
    out = []
    auto = 0
    try:
        items = list(string.Formatter().parse(b))
    except ValueError:
        raise I.err(ValueError, 'format', st)
    for lit, field, spec, conv in items:
        out.append(lit)
        if field is None:
            continue
        m = re.match(r'^([^.\[]*)(.*)$', field)
        name, rest = m.group(1), m.group(2)
        if rest or '{' in (spec or ''):
            return Opaque(('fmt', b, tuple(I.deepkey(x, st) for x in a), tuple(sorted((q, I.deepkey(v, st)) for q, v in k.items()))))
        if name == '' or name.isdigit():
            i = auto if name == '' else int(name)
            auto += name == ''
            if i >= len(a):
                raise I.err(IndexError, 'format', st)
            v = a[i]
        else:
            if name not in k:
                raise I.err(KeyError, name, st)
            v = k[name]
        out += hole(I, st, v, spec, conv)
    return sstr(out)


def percent(I, st, b, v):
    v = I.force(v, st)
    args = list(v) if isinstance(v, tuple) else [v]
    named = isinstance(v, Ref) and st.obj(v).kind == 'dict'
    out = []
    i = pos = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])', b):
        out.append(b[pos:m.start()])
        pos = m.end()
        if m.group(3) == '%':
            out.append('%')
            continue
        if m.group(1) is not None:
            if not named:
                raise I.err(TypeError, 'format requires a mapping', st)
            x = I.getitem(v, m.group(1), st)
        else:
            if i >= len(args):
                raise I.err(TypeError, 'not enough arguments for format string', st)
            x = args[i]
            i += 1
        x = I.force(x, st)
        if m.group(3) in 'sd' and isinstance(x, (str, int)) and not isinstance(x, bool):
            try:
                out.append(('%' + m.group(2) + m.group(3)) % x)
            except TypeError:
                raise I.err(TypeError, 'format', st)
        else:
            out += hole(I, st, x, None if m.group(3) == 's' and not m.group(2) else m.group(2) + m.group(3))
    out.append(b[pos:])
    if '%' in ''.join(re.sub(r'%(?:\((\w+)\))?([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])', '', b)):
        return Opaque(('fmt', b, I.deepkey(v, st)))
    return sstr(out)


@B('str')
def _(I, st, a, k):
    if not a:
        return ''
    return sstr(hole(I, st, a[0]))


@B('repr')
def _(I, st, a, k):
    return Opaque(('repr', I.deepkey(a[0], st)))


@B('format')
def _(I, st, a, k):
    sp = I.force(a[1], st) if len(a) > 1 else None
    return sstr(hole(I, st, a[0], sp if sp is None or isinstance(sp, str) else repr(sp)))


@B('hash')
def _(I, st, a, k):
    return Num(N.sym('ext:hash:' + repr(I.key(a[0], st))[:200], isint=True), True)


@B('id')
def _(I, st, a, k):
    v = I.force(a[0], st)
    if isinstance(v, Ref):
        return 10 ** 9 + (v.id if isinstance(v.id, int) else hash(v.id) % 10 ** 8) * 64
    return Num(N.sym('ext:id:' + repr(I.key(v, st))[:200], isint=True), True)


@B('callable')
def _(I, st, a, k):
    v = I.force(a[0], st)
    return isinstance(v, (Func, Bound, Builtin, Part, Wrapped, ClassV, type))


@B('hasattr')
def _(I, st, a, k):
    v = I.force(a[0], st)
    if isinstance(v, Opaque):
        return cond(N.boolsym('hasattr:%r:%r' % (v.t, a[1])))
    if isinstance(a[1], str) and a[1] in ('__len__', '__iter__', '__getitem__'):
        return isinstance(v, (tuple, str, NT)) or isinstance(v, Ref)
    try:
        I.getattr(v, I.force(a[1], st), st)
        return True
    except InterpRaise:
        return False


@B('getattr')
def _(I, st, a, k):
    try:
        return I.getattr(a[0], I.force(a[1], st), st)
    except InterpRaise:
        if len(a) > 2:
            return a[2]
        raise


@B('setattr')
def _(I, st, a, k):
    I.setattr(a[0], I.force(a[1], st), a[2], st)


@B('iter')
def _(I, st, a, k):
    v = I.force(a[0], st)
    if isinstance(v, Ref) and st.obj(v).kind == 'iter':
        return v
    return alloc(st, Obj('iter', tuple(I.iterate(v, st)), 0))


@B('next')
def _(I, st, a, k):
    v = I.force(a[0], st)
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind == 'iter':
            if o.x < len(o.d):
                st.heap[v.id] = Obj('iter', o.d, o.x + 1)
                return I.norm(o.d[o.x], st)
            if len(a) > 1:
                return a[1]
            raise I.err(StopIteration, '', st)
        if o.kind == 'inst':
            m = I.class_attr(o.x, '__next__', st)
            if m is not None:
                return I.call(Bound(m, v), [], {}, st)
    if isinstance(v, Opaque):
        return I.extern(Opaque(('attr', v.t, '__next__')), [], {}, st)
    raise I.err(TypeError, 'not an iterator', st)


@B('slice')
def _(I, st, a, k):
    if len(a) == 1:
        return Slice(None, a[0], None)
    return Slice(a[0], a[1], a[2] if len(a) > 2 else None)


@B('staticmethod')
def _(I, st, a, k):
    return Wrapped('static', a[0])


@B('classmethod')
def _(I, st, a, k):
    return Wrapped('classm', a[0])


@B('property')
def _(I, st, a, k):
    return Wrapped('property', a[0])


@B('vars')
def _(I, st, a, k):
    return I.getattr(a[0], '__dict__', st)


@B('object')
def _(I, st, a, k):
    return alloc(st, Obj('inst', {}, ClassV('object', [], alloc(st, Obj('ns', {})))))


@B('bin')
def _(I, st, a, k):
    return bin(I.conc_int(a[0], st))


@B('chr')
def _(I, st, a, k):
    return chr(I.conc_int(a[0], st))


@B('ord')
def _(I, st, a, k):
    v = I.force(a[0], st)
    return ord(v)


@B('super')
def _(I, st, a, k):
    raise Unsupported('super')


for _n in ('open', 'input', 'exec', 'eval', 'compile', '__import__', 'exit', 'quit', 'memoryview', 'bytearray', 'bytes'):
    BUILTINS[_n] = Opaque(('builtin', _n))
BUILTINS['locals'] = BUILTINS['globals'] = Builtin('locals', lambda I, st, a, k: (_ for _ in ()).throw(Unsupported('locals')))


# ------------------------------------------------------------------ modules
def bi(name, f):
    return Builtin(name, f)


def sc(name, f):
    """scalar function (no keywords)"""
    return Builtin(name, lambda I, st, a, k: f(I, st, *a))


def el(name, f):
    g = elementwise(f)

    def h(I, st, a, k):
        if 'out' in k or 'where' in k:
            raise Unsupported('numpy out/where')
        return g(I, st, list(a), k)
    return Builtin(name, h)


def constant(x):
    return Num(N.const(fl(x)))


MATH = {}


def _math():
    d = MATH
    p = 'math.'
    d['sqrt'] = sc(p + 'sqrt', m_sqrt('math'))
    d['log'] = sc(p + 'log', m_log('math'))
    d['log10'] = sc(p + 'log10', m_log('math', 10))
    d['log2'] = sc(p + 'log2', m_log('math', 2))
    d['log1p'] = sc(p + 'log1p', m_log1p)
    d['expm1'] = sc(p + 'expm1', m_expm1)
    d['exp'] = sc(p + 'exp', m_exp)
    d['exp2'] = sc(p + 'exp2', lambda I, st, v: m_pow(I, st, 2, v))
    d['cbrt'] = sc(p + 'cbrt', m_cbrt)
    for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'tanh', 'erf', 'erfc'):
        d[n] = sc(p + n, plain(n))
    d['cosh'] = sc(p + 'cosh', m_cosh)
    d['atan2'] = sc(p + 'atan2', m_atan2)
    d['hypot'] = sc(p + 'hypot', m_hypot)
    d['fabs'] = sc(p + 'fabs', asfloat(m_abs))
    d['floor'] = sc(p + 'floor', m_floor)
    d['ceil'] = sc(p + 'ceil', m_ceil)
    d['trunc'] = sc(p + 'trunc', m_trunc)
    d['pow'] = sc(p + 'pow', m_pow)
    d['copysign'] = sc(p + 'copysign', m_copysign)
    d['degrees'] = sc(p + 'degrees', m_scale(180 / fl(math.pi)))
    d['radians'] = sc(p + 'radians', m_scale(fl(math.pi) / 180))
    d['isnan'] = sc(p + 'isnan', m_isnan)
    d['isinf'] = sc(p + 'isinf', m_isinf)
    d['isfinite'] = sc(p + 'isfinite', m_isfinite)
    d['isclose'] = bi(p + 'isclose', m_isclose)
    d['fmod'] = sc(p + 'fmod', m_fmod)
    d['fsum'] = sc(p + 'fsum', lambda I, st, v: asfloat(lambda I, st, v: total(I, st, I.iterate(v, st)))(I, st, v))
    d['sumprod'] = sc(p + 'sumprod', m_dot)
    d['prod'] = bi(p + 'prod', lambda I, st, a, k: m_prod(I, st, I.iterate(a[0], st), k.get('start', 1)))
    d['factorial'] = sc(p + 'factorial', lambda I, st, v: math.factorial(I.conc_int(v, st)))
    d['gcd'] = sc(p + 'gcd', lambda I, st, *v: math.gcd(*[I.conc_int(x, st) for x in v]))
    d['isqrt'] = sc(p + 'isqrt', lambda I, st, v: math.isqrt(I.conc_int(v, st)))


def m_dot(I, st, a, b):
    xa, xb = arrlike(I, a, st), arrlike(I, b, st)
    if xa is None or xb is None:
        return I.binop(ast.Mult(), a, b, st)
    if len(xa) != len(xb):
        raise I.err(ValueError, 'shapes', st)
    return total(I, st, [I.binop(ast.Mult(), x, y, st) for x, y in zip(xa, xb)])


CMATH = {}
NP = {}
PYCONST = {'pi': math.pi, 'e': math.e, 'tau': math.tau, 'euler_gamma': 0.5772156649015329}


def _cmath():
    p = 'cmath.'
    CMATH['sqrt'] = sc(p + 'sqrt', m_sqrt('cmath'))
    CMATH['log'] = sc(p + 'log', lambda I, st, v: m_log('cmath')(I, st, v))
    CMATH['exp'] = sc(p + 'exp', lambda I, st, v: I.cx(m_exp(I, st, I.norm(v, st)), st))
    CMATH['phase'] = sc(p + 'phase', lambda I, st, v: m_atan2(I, st, Num(I.cx(I.norm(v, st), st).im), Num(I.cx(I.norm(v, st), st).re)))
    CMATH['polar'] = sc(p + 'polar', lambda I, st, v: (m_abs(I, st, v), CMATH['phase'].fn(I, st, [v], {})))
    CMATH['rect'] = sc(p + 'rect', lambda I, st, r, t: Cx(N.mul(I.num(r, st), N.fn('cos', I.num(t, st))), N.mul(I.num(r, st), N.fn('sin', I.num(t, st)))))


def flat(I, st, v):
    xs = arrlike(I, v, st)
    if xs is None:
        return [v]
    out = []
    for x in xs:
        x = I.norm(x, st)
        if isinstance(x, Ref) and st.obj(x).kind in ('arr', 'list'):
            out.extend(flat(I, st, x))
        elif isinstance(x, tuple):
            out.extend(flat(I, st, x))
        else:
            out.append(x)
    return out


def np_array(I, st, a, k):
    v = rawdata(I, st, I.force(a[0], st))
    if isinstance(v, Opaque):
        return I.extern(Opaque(('mod', 'numpy', 'array')), a, k, st)
    xs = arrlike(I, v, st)
    if xs is None:
        return v
    dt = k.get('dtype', a[1] if len(a) > 1 else None)
    isf = None
    if dt is not None:
        n = dt if isinstance(dt, str) else getattr(dt, 'name', None) or (dotted(dt.t) if isinstance(dt, Opaque) else None)
        isf = n
    xs = [I.norm(x, st) for x in xs]
    if any(isinstance(x, Ref) for x in xs):
        if all(isinstance(x, (Ref, tuple)) for x in xs):
            return alloc(st, Obj('arr', tuple(np_array(I, st, [x], {}) if isinstance(x, (Ref, tuple)) else x for x in xs)))
        raise Unsupported('ragged array')
    if isf and 'float' in isf or any(isinstance(x, Num) and not x.i for x in xs):
        xs = [Num(I.num(x, st)) if isinstance(x, (int, Num)) and not isinstance(x, bool) else x for x in xs]
    if isf and isf.split('.')[-1].startswith('int'):
        xs = [m_trunc(I, st, x) for x in xs]
    return mkarr(st, xs)


def np_asarray(I, st, a, k):
    v = I.force(a[0], st)
    if isinstance(v, Ref) and st.obj(v).kind == 'arr' and 'dtype' not in k and len(a) == 1:
        return v
    return np_array(I, st, a, k)


def np_lin(I, st, a, k):
    lo, hi = I.num(a[0], st), I.num(a[1], st)
    n = I.conc_int(a[2] if len(a) > 2 else k.get('num', 50), st)
    ep = k.get('endpoint', True)
    if 'retstep' in k or ep not in (True, False):
        raise Unsupported('linspace')
    m = n - 1 if ep else n
    if n > 5000:
        raise Unsupported('linspace size')
    if n == 1:
        return mkarr(st, [Num(lo)])
    step = N.scale(N.sub(hi, lo), Fr(1, m))
    return mkarr(st, [Num(N.add(lo, N.scale(step, Fr(i)))) for i in range(n)])


def np_arange(I, st, a, k):
    vs = [I.force(x, st) for x in a]
    if len(vs) == 1:
        vs = [0, vs[0]]
    step = vs[2] if len(vs) > 2 else k.get('step', 1)
    if all(isinstance(x, int) for x in vs[:2]) and isinstance(step, int):
        return mkarr(st, range(int(vs[0]), int(vs[1]), int(step)))
    ns = [I.num(x, st) for x in (vs[0], vs[1], step)]
    if all(n.op == 'c' for n in ns):
        lo, hi, s = [n.a for n in ns]
        cnt = max(0, math.ceil((hi - lo) / s))
        if cnt > 5000:
            raise Unsupported('arange size')
        return mkarr(st, [Num(N.const(lo + i * s)) for i in range(cnt)])
    # symbolic end
    cnt = I.conc_int(m_ceil(I, st, Num(I.div(N.sub(ns[1], ns[0]), ns[2], st))), st)
    ii = all(I.isint(x) for x in (vs[0], vs[1], step))
    return mkarr(st, [mknum(N.add(ns[0], N.scale(ns[2], Fr(i))), ii) for i in range(max(cnt, 0))])


def np_full(val):
    def f(I, st, a, k):
        s = I.force(a[0], st)
        v = val if val is not None else a[1]
        if isinstance(s, tuple):
            if len(s) != 1:
                if len(s) == 2:
                    n, m = [I.conc_int(x, st) for x in s]
                    return alloc(st, Obj('arr', tuple(mkarr(st, [v] * m) for _ in range(n))))
                raise Unsupported('nd array')
            s = s[0]
        n = I.conc_int(s, st)
        if n > 5000:
            raise Unsupported('array size')
        dt = k.get('dtype')
        if isinstance(v, int) and val is not None and not (isinstance(dt, Builtin) and dt.name == 'int'):
            v = Num(N.const(v))
        return mkarr(st, [v] * n)
    return f


def np_like(val):
    def f(I, st, a, k):
        xs = arrlike(I, a[0], st)
        v = Num(N.const(val)) if val is not None else a[1]
        return mkarr(st, [v] * len(xs))
    return f


def np_where(I, st, a, k):
    c = I.force(a[0], st)
    if len(a) == 1:
        xs = arrlike(I, c, st)
        out = []
        for i, x in enumerate(xs):
            q = I.truth(x, st)
            d = st.decide(q)
            if d is None:
                raise NeedSplit(q)
            if d:
                out.append(i)
        return (mkarr(st, out),)

    def one(I, st, c, x, y):
        q = I.truth(c, st)
        d = st.decide(q)
        x, y = I.norm(x, st), I.norm(y, st)
        if d is True:
            return x
        if d is False:
            return y
        return merge_val(q, x, y)
    return elementwise(one)(I, st, list(a), {})


def m_max2(mx):
    def f(I, st, a, b):
        return best(I, st, [I.norm(a, st), I.norm(b, st)], None, mx)
    return f


def np_clip(I, st, a, k):
    def one(I, st, x, lo, hi):
        r = I.norm(x, st)
        lo, hi = I.norm(lo, st), I.norm(hi, st)
        if lo is not None:
            r = best(I, st, [r, lo], None, True)
        if hi is not None:
            r = best(I, st, [r, hi], None, False)
        return r
    lo = a[1] if len(a) > 1 else k.get('a_min', k.get('min'))
    hi = a[2] if len(a) > 2 else k.get('a_max', k.get('max'))
    return elementwise(one)(I, st, [a[0], lo, hi], {})


def noaxis(k):
    for q in ('axis', 'out', 'where', 'keepdims'):
        if q in k and k[q] is not None and k[q] != 0:
            raise Unsupported('numpy axis')


def red(f):
    def g(I, st, a, k):
        noaxis(k)
        v = I.force(a[0], st)
        if isinstance(v, Opaque):
            return Opaque(('npred', f.__name__, v.t))
        return f(I, st, flat(I, st, v))
    return g


def r_mean(I, st, xs):
    if not xs:
        raise I.err(ValueError, 'mean of empty', st)
    return I.binop(ast.Div(), total(I, st, xs), len(xs), st)


def r_var(I, st, xs):
    m = r_mean(I, st, xs)
    ds = [I.binop(ast.Sub(), x, m, st) for x in xs]
    return r_mean(I, st, [I.binop(ast.Mult(), d, d, st) for d in ds])


def r_std(I, st, xs):
    return m_sqrt('np')(I, st, r_var(I, st, xs))


def percentile(I, st, xs, q, how='linear'):
    """interpolation between order statistics; q in [0,100] as Fraction"""
    if not 0 <= q <= 100:
        raise I.err(ValueError, 'percentile outside [0, 100]', st)
    n = len(xs)
    if n == 0:
        raise I.err(IndexError, 'percentile of empty', st)
    so = dosort(I, st, xs)
    pos = Fr(q) / 100 * (n - 1)
    lo = math.floor(pos)
    fr = pos - lo
    a = tonode(so[lo])
    if fr == 0:
        return Num(a)
    b = tonode(so[lo + 1])
    if how == 'lower':
        return Num(a)
    if how == 'higher':
        return Num(b)
    if how == 'midpoint':
        fr = Fr(1, 2)
    elif how == 'nearest':
        if fr == Fr(1, 2):
            return Num(a if lo % 2 == 0 else b)
        return Num(a if fr < Fr(1, 2) else b)
    return Num(N.add(a, N.scale(N.sub(b, a), fr)))


def rawdata(I, st, v):
    """numpy functions that disregard the mask of a masked array"""
    if isinstance(v, Ref) and st.obj(v).kind == 'inst' and st.obj(v).x.name == 'MaskedArray' and getattr(st.obj(v).x, 'standin', False):
        return I.getattr(v, 'data', st)
    return v


def np_percentile(scale):
    def f(I, st, a, k):
        noaxis(k)
        m = k.get('method', k.get('interpolation', 'linear'))
        if m not in ('linear', 'lower', 'higher', 'midpoint', 'nearest') or 'weights' in k:
            raise Unsupported('percentile method')
        v = rawdata(I, st, I.force(a[0], st))
        if isinstance(v, Opaque):
            return I.extern(Opaque(('mod', 'numpy', 'percentile')), a, k, st)
        xs = flat(I, st, v)
        q = I.force(a[1] if len(a) > 1 else k['q'], st)
        qs = arrlike(I, q, st)
        if qs is not None:
            return mkarr(st, [percentile(I, st, xs, I.num(x, st).a * scale, m) for x in qs])
        n = I.num(q, st)
        if n.op != 'c':
            raise Unsupported('symbolic percentile')
        return percentile(I, st, xs, n.a * scale, m)
    return f


def r_median(I, st, xs):
    return percentile(I, st, xs, Fr(50))


def np_cumsum(I, st, a, k):
    out, acc = [], 0
    for x in flat(I, st, a[0]):
        acc = I.binop(ast.Add(), acc, x, st)
        out.append(acc)
    return mkarr(st, out)


def np_diff(I, st, a, k):
    xs = flat(I, st, a[0])
    return mkarr(st, [I.binop(ast.Sub(), y, x, st) for x, y in zip(xs, xs[1:])])


def np_concat(I, st, a, k):
    out = []
    for x in I.iterate(a[0], st):
        out.extend(flat(I, st, x))
    return mkarr(st, out)


def np_append(I, st, a, k):
    return mkarr(st, flat(I, st, a[0]) + flat(I, st, a[1]))


def m_interp1(I, st, x, xp, fp):
    X = [I.num(v, st) for v in arrlike(I, xp, st)]
    F = [I.num(v, st) for v in arrlike(I, fp, st)]
    x = I.num(x, st)
    r = F[-1]
    for i in range(len(X) - 2, -1, -1):
        sl = N.add(F[i], N.mul(N.sub(F[i + 1], F[i]), I.div(N.sub(x, X[i]), N.sub(X[i + 1], X[i]), st)))
        r = N.ite(N.lt(x, X[i + 1]), sl, r)
    return Num(N.ite(N.lt(x, X[0]), F[0], r))


def np_interp(I, st, a, k):
    xs = arrlike(I, a[0], st)
    if xs is None:
        return m_interp1(I, st, a[0], a[1], a[2])
    return mkarr(st, [m_interp1(I, st, x, a[1], a[2]) for x in xs])


def np_polyval(I, st, a, k):
    r = 0
    for c in arrlike(I, a[0], st):
        r = I.binop(ast.Add(), I.binop(ast.Mult(), r, a[1], st), c, st)
    return r


def np_searchsorted(I, st, a, k):
    side = k.get('side', 'left')
    xs = flat(I, st, a[0])
    v = I.num(a[1], st)
    r = N.const(0)
    for x in xs:
        c = N.lt(I.num(x, st), v) if side == 'left' else N.le(I.num(x, st), v)
        r = N.add(r, N.ite(c, N.const(1), N.const(0)))
    return mknum(r, True)


def m_real(I, st, v):
    v = I.norm(v, st)
    return Num(v.re) if isinstance(v, Cx) else v


def m_imag(I, st, v):
    v = I.norm(v, st)
    return Num(v.im) if isinstance(v, Cx) else 0


def m_conj(I, st, v):
    v = I.norm(v, st)
    return Cx(v.re, N.neg(v.im)) if isinstance(v, Cx) else v


def bop(op):
    def f(I, st, a, b):
        return I.binop(op, a, b, st)
    return f


def cop(op):
    def f(I, st, a, b):
        return I.compare(op, a, b, st)
    return f


def m_land(I, st, a, b):
    return cond(N.cand(I.truth(a, st), I.truth(b, st)))


def m_lor(I, st, a, b):
    return cond(N.cor(I.truth(a, st), I.truth(b, st)))


def m_lnot(I, st, a):
    return cond(N.cnot(I.truth(a, st)))


def m_round(I, st, a, k):
    nd = a[1] if len(a) > 1 else k.get('decimals', 0)
    nd = I.conc_int(nd, st)
    return elementwise(lambda I, st, v: Num(N.fn('round', I.num(v, st), extra=nd if nd else 0)))(I, st, [a[0]], {})


def r_any(I, st, xs):
    r = N.FALSE
    for x in xs:
        r = N.cor(r, I.truth(x, st))
    return cond(r)


def r_all(I, st, xs):
    r = N.TRUE
    for x in xs:
        r = N.cand(r, I.truth(x, st))
    return cond(r)


def r_max(I, st, xs):
    return best(I, st, [I.norm(x, st) for x in xs], None, True)


def r_min(I, st, xs):
    return best(I, st, [I.norm(x, st) for x in xs], None, False)


def r_sum(I, st, xs):
    return total(I, st, xs)


def r_prod(I, st, xs):
    return m_prod(I, st, xs)


def r_amax(I, st, xs):
    return argbest(I, st, [I.norm(x, st) for x in xs], True)


def r_amin(I, st, xs):
    return argbest(I, st, [I.norm(x, st) for x in xs], False)


def r_ptp(I, st, xs):
    return I.binop(ast.Sub(), r_max(I, st, xs), r_min(I, st, xs), st)


REDS = {'max': r_max, 'amax': r_max, 'nanmax': r_max, 'min': r_min, 'amin': r_min, 'nanmin': r_min, 'sum': r_sum,
        'nansum': r_sum, 'mean': r_mean, 'nanmean': r_mean, 'average': r_mean, 'std': r_std, 'var': r_var,
        'prod': r_prod, 'any': r_any, 'all': r_all, 'argmax': r_amax, 'argmin': r_amin, 'median': r_median, 'ptp': r_ptp}


def _np():
    p = 'numpy.'
    d = NP
    d['sqrt'] = el(p + 'sqrt', m_sqrt('np'))
    d['log'] = el(p + 'log', m_log('np'))
    d['log10'] = el(p + 'log10', m_log('np', 10))
    d['log2'] = el(p + 'log2', m_log('np', 2))
    d['log1p'] = el(p + 'log1p', m_log1p)
    d['expm1'] = el(p + 'expm1', m_expm1)
    d['exp'] = el(p + 'exp', m_exp)
    d['cbrt'] = el(p + 'cbrt', m_cbrt)
    for n, m in (('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('arcsin', 'asin'), ('arccos', 'acos'), ('arctan', 'atan'),
                 ('sinh', 'sinh'), ('tanh', 'tanh')):
        d[n] = el(p + n, plain(m))
    d['cosh'] = el(p + 'cosh', m_cosh)
    d['arctan2'] = el(p + 'arctan2', m_atan2)
    d['hypot'] = el(p + 'hypot', m_hypot)
    d['abs'] = d['absolute'] = el(p + 'abs', m_abs)
    d['fabs'] = el(p + 'fabs', asfloat(m_abs))
    d['floor'] = el(p + 'floor', asfloat(m_floor))
    d['ceil'] = el(p + 'ceil', asfloat(m_ceil))
    d['trunc'] = d['fix'] = el(p + 'trunc', asfloat(m_trunc))
    d['rint'] = el(p + 'rint', lambda I, st, v: Num(N.fn('round', I.num(v, st), extra=None)))
    d['round'] = d['around'] = d['round_'] = bi(p + 'round', m_round)
    d['power'] = d['float_power'] = el(p + 'power', bop(ast.Pow()))
    d['square'] = el(p + 'square', lambda I, st, v: I.binop(ast.Mult(), v, v, st))
    d['reciprocal'] = el(p + 'reciprocal', lambda I, st, v: I.binop(ast.Div(), 1, v, st))
    d['sign'] = el(p + 'sign', m_sign)
    d['copysign'] = el(p + 'copysign', m_copysign)
    d['degrees'] = d['rad2deg'] = el(p + 'degrees', m_scale(180 / fl(math.pi)))
    d['radians'] = d['deg2rad'] = el(p + 'radians', m_scale(fl(math.pi) / 180))
    d['isnan'] = el(p + 'isnan', m_isnan)
    d['isinf'] = el(p + 'isinf', m_isinf)
    d['isfinite'] = el(p + 'isfinite', m_isfinite)
    d['maximum'] = d['fmax'] = el(p + 'maximum', m_max2(True))
    d['minimum'] = d['fmin'] = el(p + 'minimum', m_max2(False))
    d['add'] = el(p + 'add', bop(ast.Add()))
    d['subtract'] = el(p + 'subtract', bop(ast.Sub()))
    d['multiply'] = el(p + 'multiply', bop(ast.Mult()))
    d['divide'] = d['true_divide'] = el(p + 'divide', bop(ast.Div()))
    d['floor_divide'] = el(p + 'floor_divide', bop(ast.FloorDiv()))
    d['mod'] = d['remainder'] = el(p + 'mod', bop(ast.Mod()))
    d['negative'] = el(p + 'negative', lambda I, st, v: I.unary(ast.USub(), I.norm(v, st), st))
    d['greater'] = el(p + 'greater', cop(ast.Gt()))
    d['greater_equal'] = el(p + 'greater_equal', cop(ast.GtE()))
    d['less'] = el(p + 'less', cop(ast.Lt()))
    d['less_equal'] = el(p + 'less_equal', cop(ast.LtE()))
    d['equal'] = el(p + 'equal', cop(ast.Eq()))
    d['not_equal'] = el(p + 'not_equal', cop(ast.NotEq()))
    d['logical_and'] = el(p + 'logical_and', m_land)
    d['logical_or'] = el(p + 'logical_or', m_lor)
    d['logical_not'] = el(p + 'logical_not', m_lnot)
    d['real'] = el(p + 'real', m_real)
    d['imag'] = el(p + 'imag', m_imag)
    d['conj'] = d['conjugate'] = el(p + 'conj', m_conj)
    d['angle'] = el(p + 'angle', lambda I, st, v: m_atan2(I, st, m_imag(I, st, v), m_real(I, st, v)))
    d['clip'] = bi(p + 'clip', np_clip)
    d['where'] = bi(p + 'where', np_where)
    d['array'] = bi(p + 'array', np_array)
    d['asarray'] = d['asanyarray'] = d['ascontiguousarray'] = d['atleast_1d'] = bi(p + 'asarray', np_asarray)
    d['copy'] = bi(p + 'copy', lambda I, st, a, k: mkarr(st, flat(I, st, a[0])))
    d['ravel'] = bi(p + 'ravel', lambda I, st, a, k: mkarr(st, flat(I, st, a[0])))
    d['linspace'] = bi(p + 'linspace', np_lin)
    d['arange'] = bi(p + 'arange', np_arange)
    d['zeros'] = d['empty'] = bi(p + 'zeros', np_full(0))
    d['ones'] = bi(p + 'ones', np_full(1))
    d['full'] = bi(p + 'full', np_full(None))
    d['zeros_like'] = d['empty_like'] = bi(p + 'zeros_like', np_like(0))
    d['ones_like'] = bi(p + 'ones_like', np_like(1))
    d['full_like'] = bi(p + 'full_like', np_like(None))
    for n, f in REDS.items():
        d[n] = bi(p + n, red(f))
    d['count_nonzero'] = bi(p + 'count_nonzero', lambda I, st, a, k: mknum(N.addl([N.ite(I.truth(x, st), N.const(1), N.const(0)) for x in flat(I, st, a[0])]), True))
    d['percentile'] = d['nanpercentile'] = bi(p + 'percentile', np_percentile(1))
    d['quantile'] = d['nanquantile'] = bi(p + 'quantile', np_percentile(100))
    d['cumsum'] = bi(p + 'cumsum', np_cumsum)
    d['diff'] = bi(p + 'diff', np_diff)
    d['dot'] = d['inner'] = d['vdot'] = sc(p + 'dot', m_dot)
    d['concatenate'] = d['hstack'] = bi(p + 'concatenate', np_concat)
    d['append'] = bi(p + 'append', np_append)
    d['flip'] = bi(p + 'flip', lambda I, st, a, k: mkarr(st, reversed(flat(I, st, a[0]))))
    d['unique'] = bi(p + 'unique', lambda I, st, a, k: np_unique(I, st, a, k))
    d['sort'] = bi(p + 'sort', lambda I, st, a, k: mkarr(st, dosort(I, st, flat(I, st, a[0]))))
    d['interp'] = bi(p + 'interp', np_interp)
    d['polyval'] = bi(p + 'polyval', np_polyval)
    d['searchsorted'] = bi(p + 'searchsorted', np_searchsorted)
    d['isclose'] = bi(p + 'isclose', lambda I, st, a, k: elementwise(lambda I, st, x, y: cond(N.le(N.cabs(N.sub(I.num(x, st), I.num(y, st))), N.add(N.const(Fr(1, 10 ** 8)), N.scale(N.cabs(I.num(y, st)), Fr(1, 10 ** 5))))))(I, st, list(a[:2]), {}))
    d['isscalar'] = bi(p + 'isscalar', lambda I, st, a, k: isinstance(I.force(a[0], st), (int, Num, Cx, str)))
    d['iscomplexobj'] = d['iscomplex'] = bi(p + 'iscomplexobj', lambda I, st, a, k: isinstance(I.force(a[0], st), Cx))
    d['size'] = bi(p + 'size', lambda I, st, a, k: len(flat(I, st, a[0])))
    for n in ('float64', 'float32', 'float16', 'longdouble', 'double', 'float_'):
        d[n] = Builtin('numpy.' + n, BUILTINS['float'].fn)
    for n in ('int64', 'int32', 'int16', 'int8', 'uint8', 'intp', 'int_'):
        d[n] = Builtin('numpy.' + n, BUILTINS['int'].fn)
    for n in ('complex128', 'complex64'):
        d[n] = Builtin('numpy.' + n, BUILTINS['complex'].fn)
    d['bool_'] = Builtin('numpy.bool_', BUILTINS['bool'].fn)
    d['ndarray'] = Builtin('numpy.ndarray', np_array)
    d['errstate'] = bi(p + 'errstate', lambda I, st, a, k: Opaque(('errstate',)))
    d['seterr'] = bi(p + 'seterr', lambda I, st, a, k: None)


_math()
_cmath()
_np()


# functools / itertools / copy / operator / collections ...
def ft_partial(I, st, a, k):
    return Part(a[0], list(a[1:]), dict(k))


def ft_reduce(I, st, a, k):
    xs = I.iterate(a[1], st)
    if len(a) > 2:
        acc = a[2]
    else:
        if not xs:
            raise I.err(TypeError, 'reduce of empty', st)
        acc, xs = xs[0], xs[1:]
    for x in xs:
        acc = I.call(a[0], [acc, x], {}, st)
    return acc


def ft_cache(I, st, a, k):
    if len(a) == 1 and isinstance(I.force(a[0], st), (Func, Bound, Wrapped)):
        return Wrapped('cached', a[0], alloc(st, Obj('dict', {})))
    return Builtin('lru_cache()', lambda I, st, a, k: Wrapped('cached', a[0], alloc(st, Obj('dict', {}))))


def ft_wraps(I, st, a, k):
    return Builtin('wraps()', lambda I, st, a, k: a[0])


def mkiter(st, xs):
    return alloc(st, Obj('iter', tuple(xs), 0))


def it_product(I, st, a, k):
    ls = [I.iterate(x, st) for x in a]
    rep = I.conc_int(k.get('repeat', 1), st)
    out = [()]
    for x in ls * rep:
        out = [t + (y,) for t in out for y in x]
    return mkiter(st, out)


def it_chain(I, st, a, k):
    out = []
    for x in a:
        out.extend(I.iterate(x, st))
    return mkiter(st, out)


def it_accumulate(I, st, a, k):
    out = []
    f = a[1] if len(a) > 1 else k.get('func')
    for x in I.iterate(a[0], st):
        out.append(x if not out else (I.call(f, [out[-1], x], {}, st) if f else I.binop(ast.Add(), out[-1], x, st)))
    return mkiter(st, out)


def it_islice(I, st, a, k):
    xs = I.iterate(a[0], st)
    v = [None if x is None else I.conc_int(x, st) for x in a[1:]]
    return mkiter(st, xs[slice(*v)])


def it_repeat(I, st, a, k):
    if len(a) < 2:
        raise Unsupported('infinite repeat')
    return mkiter(st, [a[0]] * I.conc_int(a[1], st))


def it_pairwise(I, st, a, k):
    xs = I.iterate(a[0], st)
    return mkiter(st, list(zip(xs, xs[1:])))


def it_takewhile(keep):
    def f(I, st, a, k):
        out = []
        drop = not keep
        for x in I.iterate(a[1], st):
            c = I.truth(I.call(a[0], [x], {}, st), st) if (keep or drop) else N.TRUE
            d = st.decide(c)
            if d is None:
                raise NeedSplit(c)
            if keep:
                if not d:
                    break
                out.append(x)
            else:
                if drop and d:
                    continue
                drop = False
                out.append(x)
        return mkiter(st, out)
    return f


def it_starmap(I, st, a, k):
    return mkiter(st, [I.call(a[0], I.iterate(x, st), {}, st) for x in I.iterate(a[1], st)])


def it_ziplong(I, st, a, k):
    import itertools
    return mkiter(st, list(itertools.zip_longest(*[I.iterate(x, st) for x in a], fillvalue=k.get('fillvalue'))))


def copy_(deep):
    def f(I, st, a, k):
        memo = {}

        def go(v):
            if isinstance(v, Ref):
                if v.id in memo:
                    return memo[v.id]
                o = st.heap[v.id]
                r = alloc(st, o)
                memo[v.id] = r
                if deep:
                    st.heap[r.id] = gob(o)
                return r
            if isinstance(v, tuple):
                return tuple(go(x) for x in v) if deep else v
            if isinstance(v, NT) and deep:
                return NT(v.cls, [go(x) for x in v.items])
            if isinstance(v, Choice):
                return Choice(v.c, go(v.a), go(v.b)) if deep or isinstance(v.a, Ref) or isinstance(v.b, Ref) else v
            return v

        def gob(o):
            if o.kind == 'choice':
                return Obj('choice', o.d, gob(o.x), gob(o.y))
            if o.kind in ('list', 'arr', 'iter', 'ma'):
                return Obj(o.kind, tuple(go(x) for x in o.d), o.x)
            if o.kind in ('dict', 'set'):
                return Obj(o.kind, {q: (go(x[0]), x[1], x[2]) for q, x in o.d.items()}, o.x)
            return Obj(o.kind, {q: go(x) for q, x in o.d.items()}, o.x)
        return go(I.force(a[0], st))
    return f


def op_itemgetter(I, st, a, k):
    ks = list(a)

    def g(I, st, b, k):
        r = tuple(I.getitem(b[0], q, st) for q in ks)
        return r[0] if len(r) == 1 else r
    return Builtin('itemgetter()', g)


def op_attrgetter(I, st, a, k):
    n = a[0]
    return Builtin('attrgetter()', lambda I, st, b, k: I.getattr(b[0], n, st))


def col_namedtuple(I, st, a, k):
    name = I.force(a[0], st)
    f = I.force(a[1], st)
    fs = f.replace(',', ' ').split() if isinstance(f, str) else [I.force(x, st) for x in I.iterate(f, st)]
    c = ClassV(name, [], None)
    c.kind = 'nt'
    dv = k.get('defaults')
    ds = I.iterate(dv, st) if dv is not None else []
    c.fields = [(x, UNDEF) for x in fs]
    for i, v in enumerate(reversed(ds)):
        c.fields[len(fs) - 1 - i] = (fs[len(fs) - 1 - i], v)
    return c


def col_defaultdict(I, st, a, k):
    r = alloc(st, Obj('dict', {}, ('default', a[0]) if a and a[0] is not None else None))
    if len(a) > 1:
        dict_update(I, st, r, a[1])
    for q, v in k.items():
        I.dict_set(r, q, v, st)
    return r


def col_deque(I, st, a, k):
    if k.get('maxlen') is not None or len(a) > 1:
        raise Unsupported('bounded deque')
    return mklist(st, I.iterate(a[0], st) if a else ())


def dc_dataclass(I, st, a, k):
    if a and isinstance(a[0], ClassV):
        a[0].kind = a[0].kind or 'dc'
        return a[0]
    return Builtin('dataclass()', dc_dataclass)


def dc_field(I, st, a, k):
    if 'default_factory' in k:
        return Opaque(('dcfactory', k['default_factory']))
    return k.get('default', UNDEF)


def dc_asdict(I, st, a, k):
    v = I.force(a[0], st)
    o = st.obj(v)
    return mkdict(I, st, [(q, o.d[q]) for q, _ in o.x.fields])


def dc_replace(I, st, a, k):
    v = I.force(a[0], st)
    o = st.obj(v)
    d = dict(o.d)
    d.update(k)
    return alloc(st, Obj('inst', d, o.x))


def sn_new(I, st, a, k):
    return alloc(st, Obj('inst', dict(k), ClassV('SimpleNamespace', [], alloc(st, Obj('ns', {})))))


def bis(left):
    def f(I, st, a, k):
        xs = I.iterate(a[0], st)
        v = I.num(a[1], st)
        r = [N.ite(N.lt(I.num(x, st), v) if left else N.le(I.num(x, st), v), N.const(1), N.const(0)) for x in xs]
        return mknum(N.addl(r), True)
    return f


def np_unique(I, st, a, k):
    if len(a) > 1 or k:
        raise Unsupported('np.unique options')
    out = []
    for x in dosort(I, st, flat(I, st, a[0])):
        if out:
            c = N.eq(I.num(out[-1], st), I.num(x, st))
            d = st.decide(c)
            if d is None:
                raise NeedSplit(c)
            if d:
                continue
        out.append(x)
    return mkarr(st, out)


def hq_n(rev):
    def f(I, st, a, k):
        n = I.force(a[0], st)
        if not isinstance(n, int):
            raise Unsupported('heapq count')
        xs = dosort(I, st, I.iterate(a[1], st), k.get('key', a[2] if len(a) > 2 else None), rev)
        return mklist(st, list(xs)[:max(n, 0)])
    return f


MODS = {
    'heapq': {'nlargest': bi('nlargest', hq_n(True)), 'nsmallest': bi('nsmallest', hq_n(False))},
    'math': MATH, 'cmath': CMATH, 'numpy': NP,
    'functools': {'partial': bi('partial', ft_partial), 'reduce': bi('reduce', ft_reduce), 'lru_cache': bi('lru_cache', ft_cache),
                  'cache': bi('cache', ft_cache), 'wraps': bi('wraps', ft_wraps), 'cached_property': BUILTINS['property']},
    'itertools': {'product': bi('product', it_product), 'chain': bi('chain', it_chain), 'accumulate': bi('accumulate', it_accumulate),
                  'islice': bi('islice', it_islice), 'repeat': bi('repeat', it_repeat), 'pairwise': bi('pairwise', it_pairwise),
                  'takewhile': bi('takewhile', it_takewhile(True)), 'dropwhile': bi('dropwhile', it_takewhile(False)),
                  'starmap': bi('starmap', it_starmap), 'zip_longest': bi('zip_longest', it_ziplong)},
    'copy': {'copy': bi('copy', copy_(False)), 'deepcopy': bi('deepcopy', copy_(True))},
    'collections': {'namedtuple': bi('namedtuple', col_namedtuple), 'OrderedDict': BUILTINS['dict'],
                    'defaultdict': bi('defaultdict', col_defaultdict), 'deque': bi('deque', col_deque)},
    'dataclasses': {'dataclass': bi('dataclass', dc_dataclass), 'field': bi('field', dc_field), 'asdict': bi('asdict', dc_asdict),
                    'replace': bi('replace', dc_replace)},
    'typing': {'NamedTuple': Builtin('typing.NamedTuple', col_namedtuple), 'cast': Builtin('cast', lambda I, st, a, k: a[1])},
    'types': {'SimpleNamespace': bi('SimpleNamespace', sn_new), 'MappingProxyType': bi('MappingProxyType', lambda I, st, a, k: a[0])},
    'bisect': {'bisect': bi('bisect', bis(False)), 'bisect_right': bi('bisect_right', bis(False)), 'bisect_left': bi('bisect_left', bis(True))},
    'statistics': {'mean': bi('mean', red(r_mean)), 'fmean': bi('fmean', red(r_mean)), 'median': bi('median', red(r_median))},
    'warnings': {'warn': bi('warn', lambda I, st, a, k: None), 'simplefilter': bi('simplefilter', lambda I, st, a, k: None),
                 'filterwarnings': bi('filterwarnings', lambda I, st, a, k: None)},
    'operator': {'itemgetter': bi('itemgetter', op_itemgetter), 'attrgetter': bi('attrgetter', op_attrgetter)},
}
for _n, _o in (('add', ast.Add), ('sub', ast.Sub), ('mul', ast.Mult), ('truediv', ast.Div), ('floordiv', ast.FloorDiv),
               ('mod', ast.Mod), ('pow', ast.Pow), ('and_', ast.BitAnd), ('or_', ast.BitOr)):
    MODS['operator'][_n] = sc('operator.' + _n, bop(_o()))
for _n, _o in (('lt', ast.Lt), ('le', ast.LtE), ('gt', ast.Gt), ('ge', ast.GtE), ('eq', ast.Eq), ('ne', ast.NotEq)):
    MODS['operator'][_n] = sc('operator.' + _n, cop(_o()))
MODS['operator']['neg'] = sc('operator.neg', lambda I, st, v: I.unary(ast.USub(), I.norm(v, st), st))
MODS['operator']['getitem'] = sc('operator.getitem', lambda I, st, a, b: I.getitem(a, b, st))
MODS['operator']['abs'] = sc('operator.abs', m_abs)
MODS['itertools.chain'] = {'from_iterable': bi('from_iterable', lambda I, st, a, k: it_chain(I, st, I.iterate(a[0], st), {}))}
EXTMODS = {}


# ------------------------------------------------------------------ helpers of the stand-ins for external libraries
def si_unsupported(I, st, a, k):
    raise Unsupported('external: %s' % (a[0] if a else ''))


def si_uf(I, st, a, k):
    return Num(N.fn('uf_' + a[0], *[I.num(I.force(x, st), st) for x in a[1:]]))


def si_nparams(I, st, a, k):
    f = I.force(a[0], st)
    if isinstance(f, Func):
        return len(f.node.args.args)
    return 1


def si_crs(I, st, a, k):
    """coordinate system given as text (possibly with symbolic numbers), mapping or number -> dict of its parameters"""
    v = I.force(a[0], st)
    items = {}
    if isinstance(v, int):
        v = 'epsg:%d' % v
    if isinstance(v, Ref) and st.obj(v).kind == 'dict':
        for q, x in st.obj(v).d.items():
            if isinstance(q, str) and x[1] is N.TRUE:
                items[q] = I.force(x[0], st)
        if 'init' in items:
            v = items['init']
    if isinstance(v, str) and not v.lstrip().startswith('+'):
        t = v.strip().lower()
        kind = '4326' if t in ('epsg:4326', 'wgs84', '4326', 'ogc:crs84') else 'other'
        if re.fullmatch(r'epsg:(3857|3395|27700|2[34]\d{3}|32[67]\d\d)', t):
            kind = 'metres'
        return mkdict0(st, {'kind': kind})
    if isinstance(v, (str, Opaque)):
        ps = parts(I, st, v)
        cur = ''
        toks = []
        for p in ps:
            if isinstance(p, str):
                fs = re.split(r'\s+', p)
                for i, f in enumerate(fs):
                    if i and cur != '':
                        toks.append(cur)
                        cur = ''
                    cur = (cur if isinstance(cur, str) else cur) if f == '' else (cur + f if isinstance(cur, str) else None)
                    if cur is None:
                        raise Unsupported('crs text')
            elif isinstance(cur, str) and cur.endswith('='):
                toks.append((cur, p))
                cur = ''
            else:
                raise Unsupported('crs text')
        if cur:
            toks.append(cur)
        for t in toks:
            if isinstance(t, tuple):
                x = t[1][1]
                if isinstance(x, tuple) and x[:1] == ('n',):
                    n = x[1]
                elif isinstance(x, tuple) and x[:1] == ('q',):
                    n = N.const(x[1])
                elif isinstance(x, int):
                    n = N.const(x)
                else:
                    raise Unsupported('crs text')
                sp = t[1][2]
                if sp is not None:
                    m = re.match(r'^\.(\d+)f$', sp) if isinstance(sp, str) else None
                    if m is None:
                        if sp not in ('r', 'g!'):
                            raise Unsupported('crs number format')
                    elif int(m.group(1)) < 6:
                        n = N.fn('round', n, extra=int(m.group(1)))
                items[t[0].lstrip('+').rstrip('=')] = Num(n)
            elif '=' in t:
                q, x = t.lstrip('+').split('=', 1)
                try:
                    items[q] = Num(N.const(Fr(x)))
                except ValueError:
                    items[q] = x
    else:
        for q in list(items):
            if isinstance(items[q], int):
                items[q] = Num(N.const(items[q]))
    if items.get('proj') in ('longlat', 'latlong') :
        return mkdict0(st, {'kind': '4326'})
    if items.get('proj') != 'aeqd':
        return mkdict0(st, {'kind': 'other'})
    if items.get('units', 'm') != 'm' or items.get('datum', 'WGS84') != 'WGS84' or items.get('ellps', 'WGS84') != 'WGS84':
        return mkdict0(st, {'kind': 'other'})
    out = {'kind': 'aeqd'}
    for q in ('lon_0', 'lat_0', 'x_0', 'y_0'):
        x = items.get(q, Num(N.const(0)))
        if not isinstance(x, Num):
            raise Unsupported('crs text')
        out[q] = x
    return mkdict0(st, out)


def si_unstr(I, st, a, k):
    """the value whose plain text this is (a number and its text give the same field)"""
    v = I.force(a[0], st)
    if isinstance(v, Opaque) and v.t[:1] == ('str',) and len(v.t) == 2 and v.t[1][:1] == ('hole',) and v.t[1][2] is None:
        x = v.t[1][1]
        if isinstance(x, tuple) and x[:1] == ('n',):
            return Num(x[1])
        if isinstance(x, tuple) and x[:1] == ('q',):
            return Num(N.const(x[1]))
        if isinstance(x, tuple) and x[:1] == ('o',):
            return Opaque(x[1])
    if isinstance(v, str) and re.match(r'^-?\d+$', v):
        return int(v)
    return v


def si_listen(I, st, a, k):
    I.listening = a[0]


def si_said(I, st, a, k):
    """whether a line with this phrase was printed"""
    c = N.FALSE
    for q, v in st.obj(I.listening).d.items():
        if I.force(a[0], st) in q.lower():
            c = N.cor(c, v[1])
    return cond(c)


def si_figure(I, st, a, k):
    """the numbers on the line with this phrase, in order"""
    for q, v in st.obj(I.listening).d.items():
        i = q.lower().find(I.force(a[0], st))
        if i < 0:
            continue
        if v[1] is not N.TRUE:
            raise Unsupported('a line printed sometimes')
        out, vals = [], list(v[0])
        for m in re.finditer(r'\x00|-?\d+(?:\.\d+)?', q):
            x = vals.pop(0) if m.group() == '\x00' else Num(N.const(Fr(m.group())))
            if m.start() >= i:
                out.append(x)
        return mklist(st, out)
    return None


def si_textrows(I, st, a, k):
    """text written piecewise -> complete lines as fields, and the pieces left over"""
    ps = []
    for x in I.iterate(a[0], st):
        ps += parts(I, st, I.force(x, st))
    rows, row, fld = [], [], []

    def end():
        row.append(sstr(fld))
        fld.clear()
    tail = []
    for p in ps:
        if not isinstance(p, str):
            fld.append(p)
            tail.append(p)
            continue
        if '"' in p:
            raise Unsupported('quoted text')
        for t in re.split('([,\n])', p.replace('\r\n', '\n')):
            tail.append(t)
            if t == ',':
                end()
            elif t == '\n':
                end()
                rows.append(mklist(st, list(row)))
                row.clear()
                tail = []
            elif t:
                fld.append(t)
    rest = sstr(tail)
    return (mklist(st, rows), mklist(st, [rest] if rest != '' else []))


def mkdict0(st, d):
    return alloc(st, Obj('dict', {q: (v, N.TRUE, q) for q, v in d.items()}))


def si_main(I, st, a, k):
    """interpret a script as the main program"""
    text, fn = I.find_module(a[0])
    I.sources['__main__'] = (text, fn)
    I.import_module('__main__', st)
    return None


def si_ma(name):
    def f(I, st, a, k):
        v = I.force(a[0], st)
        if isinstance(v, Ref) and st.obj(v).kind == 'inst' and st.obj(v).x.name == 'MaskedArray':
            m = I.getattr(v, {'getmaskarray': 'mask', 'getmask': 'mask', 'getdata': 'data'}.get(name, name), st)
            return m if name.startswith('get') else I.call(m, list(a[1:]), k, st)
        return I.extern(Opaque(('mod', 'numpy.ma', name)), a, k, st)
    return bi('numpy.ma.' + name, f)


MODS['numpy.ma'] = {n: si_ma(n) for n in ('compressed', 'filled', 'count', 'getmaskarray', 'getmask', 'getdata', 'masked_less', 'masked_less_equal',
                                         'masked_greater', 'masked_greater_equal', 'masked_equal', 'masked_not_equal', 'masked_values')}
MODS['_standin'] = {'unsupported': bi('unsupported', si_unsupported), 'uf': bi('uf', si_uf), 'nparams': bi('nparams', si_nparams),
                    'crs': bi('crs', si_crs), 'unstr': bi('unstr', si_unstr), 'textrows': bi('textrows', si_textrows), 'listen': bi('listen', si_listen), 'said': bi('said', si_said), 'figure': bi('figure', si_figure), 'run_main': bi('run_main', si_main)}


def module_attr(I, mod, name):
    x = EXTMODS.get(mod)
    if x and name in x:
        return x[name]
    d = MODS.get(mod)
    if d is not None and name in d:
        return d[name]
    if mod in ('math', 'cmath', 'numpy'):
        if name in PYCONST:
            return constant(PYCONST[name])
        if name in ('inf', 'Inf', 'infty', 'PINF'):
            return Opaque(('float', 'inf'))
        if name in ('nan', 'NaN', 'NAN'):
            return Opaque(('float', 'nan'))
        if mod == 'numpy' and name in ('ma', 'linalg', 'random', 'testing', 'typing', 'polynomial', 'lib'):
            return Mod('numpy.' + name)
        if mod in ('math', 'cmath') and not name.startswith('_') and not hasattr(math, name) and mod == 'math':
            raise I.err(AttributeError, name)
    if (mod, name) in (('os', 'environ'), ('sys', 'argv'), ('os', 'environb'), ('sys', 'stdin')):
        from . import interp as IN
        if not getattr(I, 'side', None):
            IN.NONCE[0] += 1
            I.side = IN.NONCE[0]
        return Opaque(('nd', I.side, ('mod', mod, name), (), ()))
    return Opaque(('mod', mod, name))


def module_all(name):
    d = dict(MODS.get(name, {}))
    if name in ('math', 'cmath', 'numpy'):
        for q, v in PYCONST.items():
            d[q] = constant(v)
    return d


def dotted(t):
    if not isinstance(t, tuple) or not t:
        return '?'
    if t[0] == 'mod':
        return t[1] + '.' + t[2]
    if t[0] == 'attr':
        return (dotted(t[1]) if isinstance(t[1], tuple) else str(t[1])) + '.' + t[2]
    if t[0] == 'call':
        return dotted(t[1]) + '()'
    if t[0] == 'nd':
        return dotted(t[2])
    if t[0] == 'builtin':
        return 'builtins.' + t[1]
    return t[0] if isinstance(t[0], str) else '?'


EXTERN = {}


def x_write(I, st, f, a, k):
    if I.listening is not None:
        heard(I, st, parts(I, st, I.force(a[0], st)))
    return None


EXTERN['sys.stdout.write'] = x_write


def builtin_attr(I, b, name):
    d = MODS.get('itertools.' + b.name if b.name == 'chain' else b.name)
    if d and name in d:
        return d[name]
    if b.name == 'dict' and name == 'fromkeys':
        return Builtin('fromkeys', lambda I, st, a, k: mkdict(I, st, [(q, a[1] if len(a) > 1 else None) for q in I.iterate(a[0], st)]))
    if name == '__name__':
        return b.name.split('.')[-1]
    if name == 'reduce' and b.name in ('numpy.maximum', 'numpy.minimum', 'numpy.add', 'numpy.multiply'):
        f = {'numpy.maximum': r_max, 'numpy.minimum': r_min, 'numpy.add': r_sum, 'numpy.multiply': r_prod}[b.name]
        return Builtin(b.name + '.reduce', red(f))
    if b.name in ('list', 'dict', 'str', 'set', 'float', 'int'):
        def g(I, st, a, k):
            return I.call(I.getattr(a[0], name, st), list(a[1:]), k, st)
        return Builtin(b.name + '.' + name, g)
    return None


# ------------------------------------------------------------------ function attributes
def _fref(st, f):
    i = ('fa', id(f))
    if i not in st.heap:
        st.heap[i] = Obj('ns', {})
    return Ref(i)


def func_attr(I, f, name, st):
    if isinstance(f, Wrapped) and f.kind == 'cached':
        if name == 'cache_clear':
            def g(I, st, a, k):
                st.heap[f.x.id] = Obj('dict', {})
            return Builtin('cache_clear', g)
        if name == '__wrapped__':
            return f.f
    if isinstance(f, Part) and name == 'func':
        return f.f
    if isinstance(f, Func):
        KEEP.append(f)
        o = st.obj(_fref(st, f))
        if name in o.d:
            v = I.norm(o.d[name], st)
            if isinstance(v, Choice) and (v.a is UNDEF or v.b is UNDEF):
                raise NeedSplit(v.c)
            if v is not UNDEF:
                return v
        if name == '__defaults__':
            return tuple(f.defaults)
        if name == '__module__':
            return f.mod
    I.lacks([type(dc_field)], name, st)


KEEP = []


def func_setattr(I, f, name, v, st):
    KEEP.append(f)
    r = _fref(st, f)
    o = st.obj(r)
    d = dict(o.d)
    d[name] = v
    st.heap[r.id] = Obj('ns', d)


def call_wrapped(I, f, args, kw, st):
    if f.kind in ('static',):
        return I.call(f.f, args, kw, st)
    if f.kind == 'cached':
        key = tuple(args) + tuple(x for q in sorted(kw) for x in (q, kw[q]))
        if I.truth(cond(I.dict_has(f.x, key, st)), st) is not N.FALSE:
            if st.decide(I.dict_has(f.x, key, st)) is True:
                return I.dict_get(f.x, key, st)
            raise NeedSplit(I.dict_has(f.x, key, st))
        v = I.call(f.f, args, kw, st)
        I.dict_set(f.x, key, v, st)
        return v
    return I.call(f.f, args, kw, st)


# ------------------------------------------------------------------ instances
def instantiate(I, cls, args, kw, st):
    if cls.kind == 'nt':
        fs = cls.fields
        d = {}
        if len(args) > len(fs):
            raise I.err(TypeError, 'too many fields', st)
        for (n, _), v in zip(fs, args):
            d[n] = v
        d.update(kw)
        items = []
        for n, dv in fs:
            if n in d:
                items.append(d.pop(n))
            elif dv is not UNDEF:
                items.append(dv)
            else:
                raise I.err(TypeError, 'missing field ' + n, st)
        if d:
            raise I.err(TypeError, 'unexpected field', st)
        return NT(cls, items)
    if cls.kind == 'enum':
        v = I.force(args[0], st)
        for q, x in st.obj(cls.ns).d.items():
            if same(x, v):
                return Opaque(('enum', cls.name, q))
        raise I.err(ValueError, 'enum', st)
    if cls.py is not None:
        return Exc(cls, tuple(args), N.CURLOC[0])
    r = alloc(st, Obj('inst', {}, cls))
    init = I.class_attr(cls, '__init__', st)
    if init is None and cls.kind == 'dc':
        d = {}
        fs = cls.fields
        for (n, _), v in zip(fs, args):
            d[n] = v
        d.update(kw)
        for n, dv in fs:
            if n not in d:
                if isinstance(dv, Opaque) and dv.t[:1] == ('dcfactory',):
                    d[n] = I.call(dv.t[1], [], {}, st)
                elif dv is UNDEF:
                    raise I.err(TypeError, 'missing ' + n, st)
                else:
                    d[n] = dv
        st.heap[r.id] = Obj('inst', d, cls)
        post = I.class_attr(cls, '__post_init__', st)
        if post is not None:
            I.call(Bound(post, r), [], {}, st)
        return r
    if init is not None:
        I.call(Bound(init, r), args, kw, st)
    elif args or kw:
        raise I.err(TypeError, 'arguments', st)
    return r


def dataclass_method(I, cls, name):
    return None


def nt_method(I, b, name):
    if name == '_replace':
        def g(I, st, a, k):
            return NT(b.cls, [k.get(n, v) for (n, _), v in zip(b.cls.fields, b.items)])
        return Builtin('_replace', g)
    if name == '_asdict':
        return Builtin('_asdict', lambda I, st, a, k: mkdict(I, st, [(n, v) for (n, _), v in zip(b.cls.fields, b.items)]))
    if name in ('index', 'count'):
        return tuple_method(I, b.items, name)
    return None


def tuple_method(I, b, name):
    def g(I, st, a, k):
        if name == 'count':
            return mknum(N.addl([N.ite(I.equal(x, a[0], st), N.const(1), N.const(0)) for x in b]), True)
        for i, x in enumerate(b):
            e = I.equal(x, a[0], st)
            d = st.decide(e)
            if d is None:
                raise NeedSplit(e)
            if d:
                return i
        raise I.err(ValueError, 'not in sequence', st)
    return Builtin(name, g)


def num_method(I, b, name, st):
    if name in ('item', '__float__', 'conjugate', 'conj', 'copy', 'squeeze'):
        return Builtin(name, lambda I, st, a, k: b)
    if name == 'is_integer':
        return Builtin(name, lambda I, st, a, k: cond(N.eq(I.num(b, st), N.fn('floor', I.num(b, st)))))
    if name == 'astype':
        return Builtin(name, lambda I, st, a, k: I.call(a[0], [b], {}, st))
    if name in ('mean', 'sum', 'max', 'min'):
        return Builtin(name, lambda I, st, a, k: b)
    if name == 'round':
        return Builtin(name, lambda I, st, a, k: m_round(I, st, [b] + list(a), k))
    if name in ('ndim', 'size'):
        return 0 if name == 'ndim' else 1
    if name == 'shape':
        return ()
    return None


def str_method(I, b, name, st):
    if not hasattr(b, name):
        raise I.err(AttributeError, name, st)

    def g(I, st, a, k):
        a = [I.force(x, st) for x in a]
        if name == 'join':
            xs = [I.norm(x, st) for x in I.iterate(a[0], st)]
            if all(isinstance(x, str) for x in xs):
                return b.join(xs)
            out = []
            for i, x in enumerate(xs):
                if i:
                    out.append(b)
                out += parts(I, st, x)
            return sstr(out)
        if name == 'format':
            return fmt(I, st, b, a, k)
        aa = []
        for x in a:
            if isinstance(x, (str, int, tuple, type(None))):
                aa.append(x)
            else:
                return Opaque(('strm', b, name, tuple(I.deepkey(y, st) for y in a)))
        try:
            r = getattr(b, name)(*aa)
        except Exception:
            raise Unsupported('str method')
        if isinstance(r, list):
            return mklist(st, r)
        return r
    return Builtin('str.' + name, g)


# ------------------------------------------------------------------ container methods
def method(I, ref, o, name, st):
    k = o.kind
    if k == 'list':
        f = LISTM.get(name)
    elif k == 'dict':
        f = DICTM.get(name)
        if f is None and o.x == 'counter':
            f = None
    elif k == 'set':
        f = SETM.get(name)
    elif k == 'arr':
        if name in ('shape', 'size', 'ndim', 'T', 'real', 'imag', 'flat'):
            if name == 'shape':
                if o.d and isinstance(o.d[0], Ref):
                    return (len(o.d), len(st.obj(o.d[0]).d))
                return (len(o.d),)
            if name == 'size':
                return len(flat(I, st, ref))
            if name == 'ndim':
                return 2 if o.d and isinstance(o.d[0], Ref) else 1
            if name in ('real', 'imag'):
                return mkarr(st, [(m_real if name == 'real' else m_imag)(I, st, x) for x in o.d])
            return ref
        f = ARRM.get(name)
        if f is None and name in REDS:
            g = REDS[name]
            return Builtin('arr.' + name, lambda I, st, a, k: red(g)(I, st, [ref] + list(a), k))
    elif k == 'iter':
        if name == '__next__':
            return Builtin('next', lambda I, st, a, k: BUILTINS['next'].fn(I, st, [ref], {}))
        if name in ('close', 'send'):
            raise Unsupported('generator protocol')
        f = None
    else:
        f = None
    if f is None:
        return None
    return Builtin(k + '.' + name, lambda I, st, a, kw: f(I, st, ref, a, kw))


def l_append(I, st, r, a, k):
    o = st.obj(r)
    st.heap[r.id] = Obj(o.kind, o.d + (a[0],), o.x)


def l_extend(I, st, r, a, k):
    xs = tuple(I.iterate(a[0], st))
    o = st.obj(r)
    st.heap[r.id] = Obj(o.kind, o.d + xs, o.x)


def l_insert(I, st, r, a, k):
    o = st.obj(r)
    L = list(o.d)
    L.insert(I.conc_int(a[0], st), a[1])
    st.heap[r.id] = Obj(o.kind, tuple(L), o.x)


def l_pop(I, st, r, a, k):
    o = st.obj(r)
    i = I.conc_int(a[0], st) if a else -1
    L = list(o.d)
    if not -len(L) <= i < len(L):
        raise I.err(IndexError, 'pop', st)
    v = L.pop(i)
    st.heap[r.id] = Obj(o.kind, tuple(L), o.x)
    return I.norm(v, st)


def l_remove(I, st, r, a, k):
    i = l_index(I, st, r, a, k)
    o = st.obj(r)
    st.heap[r.id] = Obj(o.kind, o.d[:i] + o.d[i + 1:], o.x)


def l_index(I, st, r, a, k):
    return tuple_method(I, st.obj(r).d, 'index').fn(I, st, a, k)


def l_count(I, st, r, a, k):
    return tuple_method(I, st.obj(r).d, 'count').fn(I, st, a, k)


def l_sort(I, st, r, a, k):
    o = st.obj(r)
    rv = I.force(k.get('reverse', False), st)
    st.heap[r.id] = Obj(o.kind, tuple(dosort(I, st, list(o.d), k.get('key'), rv is True or rv == 1)), o.x)


def l_reverse(I, st, r, a, k):
    o = st.obj(r)
    st.heap[r.id] = Obj(o.kind, o.d[::-1], o.x)


def l_copy(I, st, r, a, k):
    o = st.obj(r)
    return alloc(st, Obj(o.kind, o.d if o.kind != 'dict' else dict(o.d), o.x))


def l_clear(I, st, r, a, k):
    o = st.obj(r)
    st.heap[r.id] = Obj(o.kind, () if o.kind == 'list' else {}, o.x)


LISTM = {'append': l_append, 'extend': l_extend, 'insert': l_insert, 'pop': l_pop, 'remove': l_remove, 'index': l_index,
         'count': l_count, 'sort': l_sort, 'reverse': l_reverse, 'copy': l_copy, 'clear': l_clear,
         'popleft': lambda I, st, r, a, k: l_pop(I, st, r, [0], k),
         'appendleft': lambda I, st, r, a, k: l_insert(I, st, r, [0, a[0]], k),
         '__len__': lambda I, st, r, a, k: len(st.obj(r).d),
         '__getitem__': lambda I, st, r, a, k: I.getitem(r, a[0], st),
         '__setitem__': lambda I, st, r, a, k: I.setitem(r, a[0], a[1], st)}


def d_get(I, st, r, a, k):
    dv = a[1] if len(a) > 1 else None
    q = I.dict_find(r, a[0], st)
    if q is None:
        return dv
    v, p, _ = st.obj(r).d[q]
    d = st.decide(p)
    if d is True:
        return I.norm(v, st)
    if d is False:
        return dv
    return merge_val(p, v, dv)


def d_setdefault(I, st, r, a, k):
    q = I.dict_find(r, a[0], st)
    if q is not None:
        v, p, _ = st.obj(r).d[q]
        d = st.decide(p)
        if d is None:
            raise NeedSplit(p)
        if d:
            return I.norm(v, st)
    v = a[1] if len(a) > 1 else None
    I.dict_set(r, a[0], v, st)
    return v


def d_update(I, st, r, a, k):
    if a:
        dict_update(I, st, r, a[0])
    for q, v in k.items():
        I.dict_set(r, q, v, st)


def d_pop(I, st, r, a, k):
    q = I.dict_find(r, a[0], st)
    if q is not None:
        v, p, _ = st.obj(r).d[q]
        d = st.decide(p)
        if d is None:
            raise NeedSplit(p)
        if d:
            I.dict_del(r, a[0], st)
            return I.norm(v, st)
    if len(a) > 1:
        return a[1]
    raise I.err(KeyError, 'pop', st)


DICTM = {'get': d_get, 'setdefault': d_setdefault, 'update': d_update, 'pop': d_pop,
         'items': lambda I, st, r, a, k: mklist(st, [(q, v) for q, v in I.dict_items(r, st)]),
         'keys': lambda I, st, r, a, k: mklist(st, [q for q, v in I.dict_items(r, st)]),
         'values': lambda I, st, r, a, k: mklist(st, [v for q, v in I.dict_items(r, st)]),
         'copy': l_copy, 'clear': l_clear,
         '__contains__': lambda I, st, r, a, k: cond(I.dict_has(r, a[0], st)),
         '__getitem__': lambda I, st, r, a, k: I.dict_get(r, a[0], st),
         '__setitem__': lambda I, st, r, a, k: I.dict_set(r, a[0], a[1], st),
         '__len__': lambda I, st, r, a, k: BUILTINS['len'].fn(I, st, [r], {})}


def s_discard(I, st, r, a, k):
    q = I.dict_find(r, a[0], st)
    if q is not None:
        o = st.obj(r)
        d = dict(o.d)
        d.pop(q)
        st.heap[r.id] = Obj(o.kind, d, o.x)


SETM = {'add': lambda I, st, r, a, k: I.dict_set(r, a[0], None, st), 'update': d_update, 'discard': s_discard, 'remove': s_discard,
        'copy': l_copy, 'clear': l_clear,
        'union': lambda I, st, r, a, k: I.binop(ast.BitOr(), r, a[0], st),
        'intersection': lambda I, st, r, a, k: I.binop(ast.BitAnd(), r, a[0], st),
        'difference': lambda I, st, r, a, k: I.binop(ast.Sub(), r, a[0], st)}


def a_astype(I, st, r, a, k):
    o = st.obj(r)
    t = I.force(a[0], st)
    n = t if isinstance(t, str) else getattr(t, 'name', '')
    n = n.split('.')[-1]
    if n.startswith('int'):
        return mkarr(st, [m_trunc(I, st, x) for x in o.d])
    if n.startswith('float'):
        return mkarr(st, [Num(I.num(x, st)) for x in o.d])
    return mkarr(st, o.d)


ARRM = {'tolist': lambda I, st, r, a, k: mklist(st, [mklist(st, st.obj(x).d) if isinstance(x, Ref) else x for x in st.obj(r).d]),
        'copy': l_copy, 'astype': a_astype, 'flatten': lambda I, st, r, a, k: mkarr(st, flat(I, st, r)),
        'ravel': lambda I, st, r, a, k: mkarr(st, flat(I, st, r)),
        'squeeze': lambda I, st, r, a, k: r,
        'dot': lambda I, st, r, a, k: m_dot(I, st, r, a[0]),
        'cumsum': lambda I, st, r, a, k: np_cumsum(I, st, [r], {}),
        'clip': lambda I, st, r, a, k: np_clip(I, st, [r] + list(a), k),
        'round': lambda I, st, r, a, k: m_round(I, st, [r] + list(a), k),
        'item': lambda I, st, r, a, k: I.index(st.obj(r).d, a[0] if a else 0, st),
        'sort': l_sort,
        'fill': lambda I, st, r, a, k: st.heap.__setitem__(r.id, Obj('arr', tuple(a[0] for _ in st.obj(r).d))),
        'nonzero': lambda I, st, r, a, k: np_where(I, st, [r], {}),
        '__len__': lambda I, st, r, a, k: len(st.obj(r).d)}
