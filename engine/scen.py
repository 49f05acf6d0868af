"""Obligations: two value graphs over the same inputs must be the same function.

An obligation is discharged when both sides are one hash-consed node (equality for every input of the domain).
Otherwise interval evaluation over small input boxes looks for a box on which the two sides are provably different
(disjoint enclosures), or on which one provably faults and the other provably does not.  Neither: undecided.
"""
import ast
import math
import os
import random
import re
import time
import numpy as np
from fractions import Fraction as Fr
from . import nodes as N
from . import boxes as BX
from .values import Num, Cx, Ref, Choice, CondV, NT, Func, Exc, Opaque, UNDEF, Obj, State, Mod

WIDTH = 2e-10


class Var:
    def __init__(self, name, lo, hi, log=None, isint=False, specials=(), rng=None):
        self.name, self.lo, self.hi, self.isint = name, lo, hi, isint
        self.log = (lo > 0 and hi / lo > 20) if log is None else log
        self.specials = tuple(specials)
        self.rng = rng or (lo, hi)          # sampling range (inside the declared domain)

    def node(self):
        return Num(N.sym(self.name, self.lo, self.hi, self.isint), self.isint)

    def sample(self, rs, n, wide=False):
        lo, hi = (self.lo, self.hi) if wide else self.rng
        if self.isint:
            v = rs.integers(int(lo), int(hi) + 1, n).astype(float)
        elif self.log:
            v = np.exp(rs.uniform(math.log(lo), math.log(hi), n))
        else:
            v = rs.uniform(lo, hi, n)
        return v


# ------------------------------------------------------------------ flattening
def flatten(v, st, guard=None, path=(), out=None, seen=()):
    """leaf path -> [(condition, leaf)]; a leaf is a Node, a Cond, or ('k', python constant)"""
    if out is None:
        out = {}
    g = N.TRUE if guard is None else guard
    if g is N.FALSE:
        return out

    def leaf(p, x):
        out.setdefault(p, []).append((g, x))
    while isinstance(v, Choice):
        d = st.decide(v.c)
        if d is True:
            v = v.a
        elif d is False:
            v = v.b
        else:
            flatten(v.a, st, N.cand(g, v.c), path, out, seen)
            flatten(v.b, st, N.cand(g, N.cnot(v.c)), path, out, seen)
            return out
    if isinstance(v, bool):
        leaf(path, N.const(int(v)))
    elif isinstance(v, int):
        leaf(path, N.const(v))
    elif isinstance(v, Num):
        leaf(path, v.n)
    elif isinstance(v, CondV):
        leaf(path, N.ite(v.c, N.const(1), N.const(0)))
    elif isinstance(v, Cx):
        leaf(path + ('re',), v.re)
        leaf(path + ('im',), v.im)
    elif v is None or isinstance(v, (str, bytes)):
        leaf(path, ('k', v))
    elif isinstance(v, tuple):
        leaf(path + ('#',), N.const(len(v)))
        for i, x in enumerate(v):
            flatten(x, st, g, path + (i,), out, seen)
    elif isinstance(v, NT):
        leaf(path + ('#',), N.const(len(v.items)))
        for i, x in enumerate(v.items):
            flatten(x, st, g, path + (i,), out, seen)
    elif isinstance(v, Ref):
        if v.id in seen:
            leaf(path, ('k', 'cycle'))
            return out
        o = st.heap[v.id]

        def doobj(o, g):
            if g is N.FALSE:
                return
            if o.kind == 'choice':
                doobj(o.x, N.cand(g, o.d))
                doobj(o.y, N.cand(g, N.cnot(o.d)))
                return
            s2 = seen + (v.id,)
            if o.kind in ('list', 'arr', 'ma'):
                if o.kind != 'ma' and o.x == '0d':
                    flatten(o.d[0], st, g, path, out, s2)
                    return
                out.setdefault(path + ('#',), []).append((g, N.const(len(o.d))))
                for i, x in enumerate(o.d):
                    flatten(x, st, g, path + (i,), out, s2)
            elif o.kind == 'dict':
                for key, (val, pres, kv) in o.d.items():
                    flatten(val, st, N.cand(g, pres), path + (repr(key) if not isinstance(key, (int, str, tuple)) else key,), out, s2)
                    np_ = N.cand(g, N.cnot(pres))
                    if np_ is not N.FALSE:
                        out.setdefault(path + (key if isinstance(key, (int, str, tuple)) else repr(key),), []).append((np_, ('k', 'absent')))
                ks = []
                amb = False
                for key, (val, pres, kv) in o.d.items():
                    if pres is N.TRUE:
                        ks.append(key)
                    elif pres is not N.FALSE:
                        amb = True
                if not amb:
                    out.setdefault(path + ('keys',), []).append((g, ('k', repr(ks))))
            elif o.kind == 'inst':
                for key, val in o.d.items():
                    flatten(val, st, g, path + (key,), out, s2)
            else:
                out.setdefault(path, []).append((g, ('k', o.kind)))
        doobj(o, g)
    elif isinstance(v, Opaque):
        leaf(path, ('o', repr(v.t)))
    else:
        leaf(path, ('k', type(v).__name__))
    return out


class Ob:
    """one obligation: under cond, a == b"""
    __slots__ = ('label', 'cond', 'a', 'b', 'kind')

    def __init__(self, label, cond, a, b, kind='eq'):
        self.label, self.cond, self.a, self.b, self.kind = label, cond, a, b, kind


class Side:
    """one interpreted side"""

    def __init__(self, res):
        self.res = res
        self.rc = N.FALSE
        self.ret = None
        self.faults = ()
        o = res.outs
        self.raise_ = N.FALSE
        self.exc = None
        if 'return' in o:
            self.rc, v, st = o['return']
            self.ret = flatten(v, st)
            self.faults = st.faults
            self.st = st
        if 'raise' in o:
            self.raise_, self.exc, st = o['raise']
            self.faults = tuple(self.faults) + tuple(f for f in st.faults if f not in self.faults)
            if 'return' not in o:
                self.st = st

    def excname(self):
        return '; '.join(self.excs()[:3])

    def keys(self):
        """keys whose absence may raise"""
        out = []

        def go(e):
            if isinstance(e, Choice):
                go(e.a)
                go(e.b)
            elif isinstance(e, Exc) and getattr(e.cls, '__name__', '') == 'KeyError':
                k = e.args[0] if e.args else None
                try:
                    k = ast.literal_eval(k) if isinstance(k, str) else k
                except (ValueError, SyntaxError):
                    pass
                out.append(k)
        go(self.exc)
        return out

    def excs(self):
        e = self.exc
        out = []

        def go(e):
            if isinstance(e, Choice):
                go(e.a)
                go(e.b)
            elif isinstance(e, Exc):
                out.append('%s%r at %s' % (getattr(e.cls, '__name__', getattr(e.cls, 'name', e.cls)), tuple(str(x) for x in e.args), e.loc))
            else:
                out.append(repr(e))
        go(e)
        return out


def pathcond(path):
    c = N.TRUE
    for p in path:
        c = N.cand(c, p)
    return c


def obligations(A, R, skip_none=True, ordered_keys=False):
    """pairwise obligations between two sides (A analysed, R reference)"""
    obs = []
    both = N.cand(A.rc, R.rc)
    if A.ret is not None and R.ret is not None and both is not N.FALSE:
        for p in sorted(set(A.ret) | set(R.ret), key=repr):
            if p and p[-1] == 'keys' and not ordered_keys:
                continue
            la, lr = A.ret.get(p), R.ret.get(p)
            if la is None or lr is None:
                # a leaf with no counterpart: structural difference
                for c, x in (la or lr):
                    obs.append(Ob(p, N.cand(both, c), ('k', 'absent') if la is None else x,
                                  ('k', 'absent') if lr is None else x, 'struct'))
                continue
            for ca, xa in la:
                for cr, xr in lr:
                    c = N.cand(both, N.cand(ca, cr))
                    if c is N.FALSE:
                        continue
                    if skip_none and (xa == ('k', None) or xr == ('k', None)):
                        continue
                    obs.append(Ob(p, c, xa, xr))
    return obs


def sameleaf(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a == b
    return False


# ------------------------------------------------------------------ fast point evaluation (search guidance only)
class Pt:
    def __init__(self, order, cols, n, bools=None, force=None):
        val = self.val = {}
        for x in order:
            if force and x.id in force:
                val[x.id] = force[x.id]
                continue
            if isinstance(x, N.Node):
                op = x.op
                if op == 'c':
                    r = float(x.a) if abs(x.a) < 10 ** 300 else math.inf
                elif op == 's':
                    r = cols.get(x.a)
                    if r is None:
                        r = np.full(n, 0.5 * (x.lo + x.hi) if math.isfinite(x.lo) and math.isfinite(x.hi) else 1.0)
                elif op == '+':
                    c, ts = x.a
                    r = float(c)
                    for m, k in ts:
                        r = r + val[m.id] * float(k)
                elif op == '*':
                    r = 1.0
                    for m, e in x.a:
                        v = val[m.id]
                        if e == 1:
                            r = r * v
                        elif e == -1:
                            r = r / v
                        elif e == 2:
                            r = r * v * v
                        else:
                            r = r * np.power(v, float(e))
                elif op == 'f':
                    a = [val[m.id] for m in x.a[1:-1]]
                    f = x.a[0]
                    if f in ('exp', 'log', 'sin', 'cos', 'tan', 'floor', 'tanh', 'sinh'):
                        r = getattr(np, f)(a[0])
                    elif f == 'atan':
                        r = np.arctan(a[0])
                    elif f == 'asin':
                        r = np.arcsin(a[0])
                    elif f == 'acos':
                        r = np.arccos(a[0])
                    elif f == 'round':
                        r = np.round(a[0], x.a[-1] or 0)
                    elif f == 'max':
                        r = a[0]
                        for q in a[1:]:
                            r = np.maximum(r, q)
                    elif f == 'min':
                        r = a[0]
                        for q in a[1:]:
                            r = np.minimum(r, q)
                    elif f == 'csq_re':
                        r = np.sqrt(a[0] + 1j * a[1]).real
                    elif f == 'csq_im':
                        r = np.sqrt(a[0] + 1j * a[1]).imag
                    elif f == 'os':
                        r = np.sort(np.stack([np.broadcast_to(q, (n,)) for q in a]), axis=0)[x.a[-1]]
                    elif f.startswith('uf_'):
                        # any function of the arguments will do (guidance only)
                        h = np.full(n, 0.1 + (sum(map(ord, f + str(x.a[-1]))) % 97) / 7.0)
                        for k, q in enumerate(a):
                            h = h + (1.37 + (k % 53) * 0.618) * np.sign(q) * np.log1p(np.abs(q)) * 3.0
                        h = np.sin(h) * 437.5453
                        h = h - np.floor(h)
                        r = (h - 0.5) * 0.1 if f.endswith('_the') else np.exp(3 + 9 * h) if f.endswith('_dl') else 300 * h
                    else:
                        r = np.full(n, np.nan)
                else:
                    r = np.where(val[x.a[0].id], val[x.a[1].id], val[x.a[2].id])
            elif isinstance(x, N.Atom):
                if x.op == 'b':
                    r = bools[x.u] if bools and x.u in bools else np.zeros(n, bool)
                else:
                    u, t = val[x.u.id], float(x.t)
                    r = u < t if x.op == 'lt' else u <= t if x.op == 'le' else u == t
            else:
                if x.atom is None:
                    r = x is N.TRUE
                else:
                    r = np.where(val[x.atom.id], val[x.hi.id], val[x.lo.id])
            val[x.id] = r


class Found(Exception):
    pass


class OutOfTime(Exception):
    pass


def unknown(a, b):
    """one side is the result of a library call that is not modelled and may therefore equal the other"""
    def op(x):
        return isinstance(x, tuple) and x[:1] == ('o',) and "('nd', " not in x[1]
    return op(a) != op(b)


def free(name):
    """may this symbol take any value? (unknown library results may not)"""
    name = str(name)
    if "('nd', " in name:
        return True
    return name.split(':')[0] not in ('ext', 'isnone', 'eq', 'in', 'isnan', 'isinst', 'hasattr')


STORED = {}


def stored(key):
    """is this key written anywhere in the analysed tree? (a routine called on its own may lack fields its callers set)"""
    root = os.environ.get('VERIF_REPO', '/repo')
    if not STORED:
        STORED[None] = True
        for top in ('src', 'scripts'):
            for d, _, fs in os.walk(os.path.join(root, top)):
                for f in fs:
                    if not f.endswith('.py'):
                        continue
                    try:
                        t = ast.parse(open(os.path.join(d, f), encoding='utf-8').read())
                    except (SyntaxError, OSError, UnicodeDecodeError):
                        continue
                    loads = set()
                    for n in ast.walk(t):
                        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                            loads.add(id(n.slice))
                        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and n.args:
                            loads.add(id(n.args[0]))
                        elif isinstance(n, ast.keyword) and n.arg:
                            STORED[n.arg] = True
                    for n in ast.walk(t):
                        if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in loads:
                            STORED[n.value] = True
    return key in STORED or not isinstance(key, str)


class Search:
    """look for a box refuting one of the obligations"""

    def __init__(self, vars_, obs, A, R, valid=None, seed=1, tol=(1e-7, 1e-7), budget=None, keyerr='violation',
                 fault_check=True, log=None, ext=False, defs=()):
        self.vars, self.obs, self.A, self.R, self.tol = vars_, obs, A, R, tol
        self.rs = np.random.default_rng(seed)
        grp = {}
        for v in vars_:
            if not v.isint:
                grp.setdefault((re.sub(r'\d+$', '', v.name), v.lo, v.hi), []).append(v)
        self.alike = [g for g in grp.values() if len(g) > 1]
        self.valid = valid if valid is not None else N.TRUE
        self.fault_check = fault_check
        self.boxes = 0
        self.hit = None
        self.tried = None
        self.budget = budget or {}
        self.deadline = time.time() + self.budget.get('secs', 100)
        # faults as (condition incl. path)
        self.fa = []
        self.fr = []
        if fault_check:
            for f in A.faults:
                if f[0] in ('complex-power', 'note', 'nan'):     # numpy yields nan: judged on the outputs
                    continue
                self.fa.append((N.cand(f[1], pathcond(f[2])), f))
        for f in R.faults:
            self.fr.append((N.cand(f[1], pathcond(f[2])), f))
        self.defs = [(c, x, p) for p, alts in (A.ret or {}).items() for c, x in alts if isinstance(x, N.Node)] if defs else []
        roots = [self.valid, A.raise_, R.raise_, A.rc, R.rc]
        for o in obs:
            roots.append(o.cond)
            for x in (o.a, o.b):
                if isinstance(x, (N.Node, N.B)):
                    roots.append(x)
        for c, f in self.fa + self.fr:
            roots.append(c)
        for c, x, p in self.defs:
            roots += [c, x]
        self.roots = roots
        self.order = BX.reach(roots)
        ids = {x.a for x in self.order if isinstance(x, N.Node) and x.op == 's'}
        # values of external calls: free only where any value may occur (clock, randomness, environment); otherwise unknown
        names = {v.name for v in vars_}
        self.extdom = {x.a: (x.lo, x.hi) for x in self.order if isinstance(x, N.Node) and x.op == 's' and x.a not in names}
        self.extsyms = sorted(i for i in ids if i not in names and free(i))
        self.extbools = sorted(x.u for x in self.order if isinstance(x, N.Atom) and x.op == 'b' and free(x.u))
        self.keyerr = keyerr

    # columns: name -> float array
    def box(self, cols, n, w=WIDTH):
        b = {}
        for v in self.vars:
            x = cols[v.name]
            if v.isint:
                b[v.name] = (x, x)
                continue
            e = cols.get(('x', v.name))
            d = np.abs(x) * w
            if e is not None:
                d = np.where(e, 0.0, d)
            lo, hi = x - d, x + d
            b[v.name] = (np.maximum(lo, v.lo), np.minimum(hi, v.hi))
        for s in self.extsyms:
            x = cols.get(s)
            if x is not None:
                b[s] = (x, x)
        return b

    def otherskey(self):
        ks = self.A.keys()
        return bool(ks) and any(stored(k) for k in ks)

    def check(self, cols, n, w=WIDTH):
        """interval evaluation; raises Found"""
        if n == 0:
            return
        if time.time() > self.deadline:
            raise OutOfTime()
        if self.tried is not None and n <= 96 and len(self.tried) < 400:
            self.tried.append((cols, n))
        bools = {b: cols[('b', b)] for b in self.extbools if ('b', b) in cols}
        bx = self.box(cols, n, w)
        ev = BX.Ev(self.roots, bx, n, self.order, bools)
        self.boxes += n
        vt, vf = ev.get(self.valid)
        # reference must definitely not fault
        rok = vt & ev.get(self.R.rc)[0]
        for c, f in self.fr:
            rok = rok & ev.get(c)[1]
        if not rok.any():
            return
        # analysed side raises
        t = ev.get(self.A.raise_)[0] & rok
        if t.any() and not (self.keyerr == 'skip' and self.otherskey()):
            self.found(cols, bx, int(np.argmax(t)), 'raises ' + self.A.excname(), None, None)
        afault = np.zeros(n, bool)
        for c, f in self.fa:
            ct = ev.get(c)[0] & rok
            if ct.any():
                self.found(cols, bx, int(np.argmax(ct)), '%s at %s' % (f[0], f[3]), None, None)
            afault |= ~ev.get(c)[1]
        for c, x, p in self.defs:
            iv = ev.get(x)
            bad = ev.get(c)[0] & ev.get(self.A.rc)[0] & rok & (np.isnan(iv[0]) | (np.isinf(iv[0]) & (iv[0] == iv[1])))
            if bad.any():
                self.found(cols, bx, int(np.argmax(bad)), 'result not a number (output %s)' % (p,), None, None)
        for o in self.obs:
            ct = ev.get(o.cond)[0] & rok
            if not ct.any():
                continue
            if not (isinstance(o.a, N.Node) and isinstance(o.b, N.Node)):
                if unknown(o.a, o.b):
                    continue
                if isinstance(o.a, N.Node) or isinstance(o.b, N.Node) or o.a != o.b:
                    self.found(cols, bx, int(np.argmax(ct)), 'structure', o, None)
                continue
            a, b = ev.get(o.a), ev.get(o.b)
            ok = np.isfinite(b[0]) & np.isfinite(b[1])
            if o.kind == 'eq':
                at, rt = self.tol
                m = np.maximum(np.abs(b[0]), np.abs(b[1]))
                gap = np.maximum(b[0] - a[1], a[0] - b[1])
                bad = ct & ok & (gap > at * np.minimum(1.0, m + 1e-300) + rt * m)
                # a tiny reference value: absolute slack only through its own scale
                bad = bad & (gap > 1e-12 * np.maximum(m, 1e-30))
                nanbad = ct & ok & np.isnan(a[0]) & (np.abs(b[1] - b[0]) <= 1e-3 * (1 + m)) & ~afault
                bad = bad | nanbad
            elif o.kind == 'le':      # a <= b
                m = np.maximum(np.abs(b[0]), np.abs(b[1]))
                bad = ct & (a[0] - b[1] > self.tol[0] * np.minimum(1, m + 1e-9) + self.tol[1] * m)
            elif o.kind == 'lt0':
                bad = ct & (a[0] >= b[1])
            if bad.any():
                k = int(np.argmax(bad))
                self.found(cols, bx, k, 'value', o, (float(a[0][k]), float(a[1][k]), float(b[0][k]), float(b[1][k])))

    def found(self, cols, bx, k, what, o, ivs):
        box = {v.name: (float(bx[v.name][0][k]), float(bx[v.name][1][k])) for v in self.vars}
        for s in self.extsyms:
            if s in bx:
                box[s] = (float(bx[s][0][k]), float(bx[s][1][k]))
        self.hit = {'what': what, 'label': None if o is None else list(map(str, o.label)), 'box': box,
                    'intervals': ivs}
        if o is not None:
            self.hit['locs'] = divergence(o.a, o.b)
            if not (isinstance(o.a, N.Node) and isinstance(o.b, N.Node)):
                self.hit['structure'] = [str(o.a)[:200], str(o.b)[:200]]
        raise Found()

    # ---- sampling
    def random_cols(self, n, special=0.12):
        rs = self.rs
        cols = {}
        wide = rs.random(n) < 0.15
        for v in self.vars:
            x = v.sample(rs, n)
            if v.rng != (v.lo, v.hi):
                x = np.where(wide & (rs.random(n) < 0.5), v.sample(rs, n, True), x)
            ex = np.zeros(n, bool)
            if v.specials:
                m = rs.random(n) < special
                x = np.where(m, rs.choice(np.array(v.specials, float), n), x)
                ex = m
            cols[v.name] = x
            cols[('x', v.name)] = ex
        # a whole profile moved up or down within its domain
        for grp in self.alike:
            v = grp[0]
            if len(grp) > 2 and v.rng != (v.lo, v.hi):
                m = rs.random(n) < 0.1
                a = np.min([cols[g.name] for g in grp], axis=0)
                b = np.max([cols[g.name] for g in grp], axis=0)
                sh = np.where(m & ~wide, (v.lo - a) + rs.random(n) * ((v.hi - b) - (v.lo - a)) * np.where(rs.random(n) < 0.5, 1.0, 0.1), 0.0)
                for g in grp:
                    cols[g.name] = np.clip(cols[g.name] + sh, v.lo, v.hi)
        # alike inputs (both antenna heights, all elevations, ...) sometimes exactly equal
        for grp in self.alike:
            m = rs.random(n) < special / 2
            for v in grp[1:]:
                cols[v.name] = np.where(m, cols[grp[0].name], cols[v.name])
            for v in grp:
                cols[('x', v.name)] = cols[('x', v.name)] | m
        for s in self.extsyms:
            lo, hi = self.extdom[s]
            cols[s] = rs.uniform(lo, hi, n) if math.isfinite(lo) and math.isfinite(hi) else rs.choice([-1, 1, 1, 1], n) * np.exp(rs.uniform(-3, 9, n))
        for b in self.extbools:
            cols[('b', b)] = rs.random(n) < 0.5
        return cols

    @staticmethod
    def take(cols, idx):
        return {k: v[idx] for k, v in cols.items()}

    def mix(self, p, q, lam):
        """point between p and q (column dicts), lam array"""
        out = {}
        for v in self.vars:
            a, b = p[v.name], q[v.name]
            if v.isint:
                out[v.name] = np.where(lam < 0.5, a, b)
            elif v.log:
                out[v.name] = np.exp(np.log(a) * (1 - lam) + np.log(b) * lam)
            else:
                out[v.name] = a * (1 - lam) + b * lam
            out[('x', v.name)] = np.where(lam == 0, p[('x', v.name)], np.where(lam == 1, q[('x', v.name)], p[('x', v.name)] & q[('x', v.name)] & (a == b)))
        for s in self.extsyms:
            out[s] = np.where(lam < 0.5, p[s], q[s])
        for b in self.extbools:
            out[('b', b)] = np.where(lam < 0.5, p[('b', b)], q[('b', b)])
        return out

    def run(self):
        try:
            self._run()
        except Found:
            return self.hit
        except OutOfTime:
            pass
        return None

    def suspects(self, count, seconds):
        """points where the sides differ for one choice of the summarised functions: boxes worth interpreting in full"""
        t0 = time.time()
        out = []
        sets = [(self.random_cols(1024), 1024) for _ in range(3)]
        per = {}
        for cols, n in sets + list(reversed(self.tried or [])):
            if time.time() - t0 > seconds or len(out) >= count:
                break
            bools = {b: cols[('b', b)] for b in self.extbools if ('b', b) in cols}
            val = Pt(self.order, cols, n, bools).val
            ok = np.broadcast_to(np.asarray(val[self.valid.id], bool), (n,))
            bad = np.zeros(n, bool)
            for o in self.obs:
                c = np.broadcast_to(np.asarray(val[o.cond.id], bool), (n,)) & ok
                if isinstance(o.a, N.Node) and isinstance(o.b, N.Node):
                    a, b = val[o.a.id], val[o.b.id]
                    bad |= c & (np.abs(a - b) > 1e-4 * (1 + np.abs(b)))
                else:
                    bad |= c
            idx = np.nonzero(bad)[0]
            for i in idx[:count if n > 96 else 2]:
                out.append({v.name: (int(cols[v.name][i]) if v.isint else float(cols[v.name][i]), bool(cols[('x', v.name)][i])) for v in self.vars})
        return out[:count]

    def _run(self):
        n = self.budget.get('n', 4096)
        chunk = self.budget.get('chunk', 1024)
        allc = None
        for i in range(0, n, chunk):
            cols = self.random_cols(chunk)
            self.check(cols, chunk)
            if i == 0:
                allc = cols
        self.edge(allc, chunk)
        self.guided(allc, chunk)

    def edge(self, cols, n):
        """domain corners for one variable at a time"""
        for v in self.vars:
            if v.isint:
                continue
            for e in sorted({v.lo, v.hi, *v.rng}):
                c = dict(cols)
                k = min(n, 64)
                c = self.take(c, np.arange(k))
                c[v.name] = np.full(k, float(e))
                c[('x', v.name)] = np.ones(k, bool)
                self.check(c, k)

    def guided(self, cols, n):
        """atoms that only one side has (or all, when none): both outcomes, close to the threshold"""
        ra, rb = [], []
        for o in self.obs:
            if isinstance(o.a, N.Node):
                ra.append(o.a)
            if isinstance(o.b, N.Node):
                rb.append(o.b)
        ra += [c for c, f in self.fa] + [self.A.raise_]
        ida = {x.id: x for x in BX.reach(ra)}
        idb = {x.id: x for x in BX.reach(rb)}
        only = [x for i, x in ida.items() if isinstance(x, N.Atom) and i not in idb and x.op != 'b']
        only += [x for i, x in idb.items() if isinstance(x, N.Atom) and i not in ida and x.op != 'b']
        common = [x for i, x in ida.items() if isinstance(x, N.Atom) and i in idb and x.op != 'b']
        lim = self.budget.get('atoms', 60)
        atoms = only[:lim] + common[:max(0, lim // 2 - len(only))]
        if not atoms:
            return
        pt = Pt(self.order, cols, n)
        for a in atoms:
            self.threshold(a, cols, n, pt)
        t0 = time.time()
        for a in only[:lim]:
            if a.op != 'eq' and time.time() - t0 < self.budget.get('sens', 12):
                self.sensitive(a, cols, n)
        # conditions only one side has: paths to both outcomes
        conds = [x for i, x in list(ida.items()) if isinstance(x, N.Node) and x.op == 'ite' and i not in idb]
        conds += [x for i, x in list(idb.items()) if isinstance(x, N.Node) and x.op == 'ite' and i not in ida]
        seen = set()
        k = 0
        for x in conds:
            c = x.a[0]
            if c.id in seen or k >= self.budget.get('conds', 40):
                continue
            seen.add(c.id)
            for lits in self.paths(c, 3):
                k += 1
                self.reachlits(lits, cols, n)
        for c, f in self.fa[:self.budget.get('fa', 40)]:
            for lits in self.paths(c, 2, only_true=True):
                self.reachlits(lits, cols, n)

    def paths(self, c, lim, only_true=False):
        out = {True: [], False: []}

        def go(b, acc):
            if b.atom is None:
                w = b is N.TRUE
                if len(out[w]) < lim:
                    out[w].append(list(acc))
                return
            if len(out[True]) >= lim and len(out[False]) >= lim or len(acc) > 25:
                return
            go(b.hi, acc + [(b.atom, True)])
            go(b.lo, acc + [(b.atom, False)])
        go(c, [])
        return out[True] + ([] if only_true else out[False])

    def threshold(self, a, cols, n, pt):
        w = np.broadcast_to(np.asarray(pt.val[a.id], bool), (n,))
        T_, F_ = np.nonzero(w)[0], np.nonzero(~w)[0]
        K = self.budget.get('pairs', 24)
        if a.op == 'eq':
            self.solve_eq(a, cols, n)
            return
        if len(T_) == 0 or len(F_) == 0:
            self.reachlits([(a, len(T_) == 0)], cols, n)
            return
        ti = self.rs.choice(T_, K)
        fi = self.rs.choice(F_, K)
        p, q = self.take(cols, ti), self.take(cols, fi)
        order = BX.reach([a])
        lo, hi = np.zeros(K), np.ones(K)
        for it in range(34):
            mid = 0.5 * (lo + hi)
            m = self.mix(p, q, mid)
            v = np.broadcast_to(np.asarray(Pt(order, m, K).val[a.id], bool), (K,))
            lo = np.where(v, mid, lo)
            hi = np.where(v, hi, mid)
            if it in (4, 10, 18, 26, 33):
                self.check(self.mix(p, q, lo), K, WIDTH if it < 26 else 1e-13)
                self.check(self.mix(p, q, hi), K, WIDTH if it < 26 else 1e-13)

    def sensitive(self, a, cols, n):
        """points where the outcome of this atom matters, moved across its threshold one input at a time"""
        order = self.order
        bools = {b: cols[('b', b)] for b in self.extbools if ('b', b) in cols}
        t = Pt(order, cols, n, bools, {a.id: np.ones(n, bool)}).val
        f = Pt(order, cols, n, bools, {a.id: np.zeros(n, bool)}).val
        bad = np.zeros(n, bool)
        ok = np.broadcast_to(np.asarray(t[self.valid.id], bool), (n,))
        for o in self.obs:
            for x in (o.a, o.b):
                if isinstance(x, N.Node):
                    d = np.abs(t[x.id] - f[x.id])
                    bad |= ok & (d > 1e-9 * (np.abs(t[x.id]) + np.abs(f[x.id])) + 1e-12)
        idx = np.nonzero(bad)[0]
        if len(idx) == 0 or len(idx) == n:
            return
        sub = BX.reach([a])
        names = {x.a for x in sub if isinstance(x, N.Node) and x.op == 's'}
        K = 32
        for v in self.vars:
            if v.name not in names or v.isint:
                continue
            p = self.take(cols, self.rs.choice(idx, K))
            w = np.broadcast_to(np.asarray(Pt(sub, p, K).val[a.id], bool), (K,))
            q = dict(p)
            done = np.zeros(K, bool)
            qx = p[v.name].copy()
            for _ in range(6):
                c = dict(p)
                c[v.name] = v.sample(self.rs, K)
                w2 = np.broadcast_to(np.asarray(Pt(sub, c, K).val[a.id], bool), (K,))
                new = ~done & (w2 != w)
                qx = np.where(new, c[v.name], qx)
                done |= new
            if not done.any():
                continue
            i = np.nonzero(done)[0]
            p, k = self.take(p, i), len(i)
            w, lo, hi = w[i], p[v.name].copy(), qx[i]
            for it in range(40):
                mid = np.sqrt(lo * hi) if v.log else 0.5 * (lo + hi)
                c = dict(p)
                c[v.name] = mid
                m = np.broadcast_to(np.asarray(Pt(sub, c, k).val[a.id], bool), (k,)) == w
                lo, hi = np.where(m, mid, lo), np.where(m, hi, mid)
                if it in (6, 14, 24, 39):
                    for e in (lo, hi):
                        c = dict(p)
                        c[v.name] = e
                        self.check(c, k, WIDTH if it < 26 else 1e-13)

    def solve_eq(self, a, cols, n):
        """u == t with u affine in a symbol of the inputs: put that symbol exactly"""
        u = a.u
        c, ts = N._parts(u)
        K = 48
        for m, k in ts:
            if m.op != 's' or not any(v.name == m.a for v in self.vars):
                continue
            p = self.take(cols, self.rs.integers(0, n, K))
            if len(ts) == 1:
                x = np.full(K, float((a.t - c) / k))
            else:
                order = BX.reach([u])
                uv = Pt(order, p, K).val[u.id]
                x = p[m.a] + (float(a.t) - uv) / float(k)
            v = next(v for v in self.vars if v.name == m.a)
            ok = (x >= v.lo) & (x <= v.hi)
            p[m.a] = x
            p[('x', m.a)] = np.ones(K, bool)
            if len(ts) > 1:
                for q, _ in ts:
                    if q.op == 's' and ('x', q.a) in p:
                        p[('x', q.a)] = np.ones(K, bool)
            self.check(self.take(p, np.nonzero(ok)[0]), int(ok.sum()))

    def reachlits(self, lits, cols, n):
        """local search for boxes satisfying all literals"""
        lits = [(a, w) for a, w in lits if a.op != 'b']
        if not lits:
            return
        K = self.budget.get('pop', 96)
        p = self.take(cols, self.rs.integers(0, n, K))
        order = BX.reach([a for a, w in lits])
        scale = None

        def score(c, m):
            nonlocal scale
            pv = Pt(order, c, m)
            s = np.zeros(m)
            sc = []
            for j, (a, w) in enumerate(lits):
                u = np.broadcast_to(np.asarray(pv.val[a.u.id], float), (m,))
                t = float(a.t)
                d = u - t
                if scale is None:
                    sc.append(max(abs(t), float(np.nanmedian(np.abs(d))) if np.isfinite(np.nanmedian(np.abs(d))) else 1.0, 1e-12))
                k = (scale or sc)[j] if scale is not None else sc[j]
                if a.op == 'eq':
                    h = np.abs(d) if w else np.where(d == 0, 1e-3, 0)
                else:
                    # a margin keeps the box inside the open region
                    h = np.maximum(d + 1e-9 * k, 0) if w else np.maximum(-d + 1e-9 * k, 0)
                h = np.where(np.isfinite(h), h / k, 1e6)
                s += h
            if scale is None:
                scale = sc
            return s
        cur = score(p, K)
        rs = self.rs
        vs = [v for v in self.vars]
        for it in range(self.budget.get('climb', 160)):
            if (cur <= 0).sum() >= K // 3:
                break
            q = {k: v.copy() for k, v in p.items()}
            who = rs.integers(0, len(vs), K)
            mag = 10.0 ** rs.uniform(-7, 0.3, K)
            sgn = rs.choice([-1.0, 1.0], K)
            for j, v in enumerate(vs):
                m = who == j
                if not m.any():
                    continue
                x = q[v.name][m]
                if v.isint:
                    y = rs.integers(int(v.lo), int(v.hi) + 1, int(m.sum())).astype(float)
                elif v.log:
                    y = x * np.exp(sgn[m] * mag[m])
                else:
                    y = x + sgn[m] * mag[m] * (v.rng[1] - v.rng[0])
                y = np.clip(y, v.lo, v.hi)
                if v.specials:
                    sp = rs.random(int(m.sum())) < 0.1
                    y = np.where(sp, rs.choice(np.array(v.specials, float), int(m.sum())), y)
                    e = q[('x', v.name)]
                    e[m] = sp
                q[v.name][m] = y
            # crossover
            if it % 5 == 4:
                o = rs.integers(0, K, K)
                for v in vs:
                    m = rs.random(K) < 0.3
                    q[v.name] = np.where(m, p[v.name][o], p[v.name])
                    q[('x', v.name)] = np.where(m, p[('x', v.name)][o], p[('x', v.name)])
            s = score(q, K)
            better = s < cur
            for k in p:
                p[k] = np.where(better, q[k], p[k])
            cur = np.where(better, s, cur)
        idx = np.argsort(cur)[:max(8, int((cur <= 0).sum()))]
        self.check(self.take(p, idx), len(idx))
        self.check(self.take(p, idx), len(idx), 1e-13)


def divergence(a, b):
    """source locations of the nodes only the analysed side has"""
    if not isinstance(a, N.Node):
        return []
    ib = {x.id for x in BX.reach([b])} if isinstance(b, N.Node) else set()
    out = []
    for x in BX.reach([a]):
        loc = getattr(x, 'loc', None)
        if x.id not in ib and loc and loc[0] != '<driver>' and '/verif/' not in loc[0]:
            if loc not in out:
                out.append(loc)
    return out[:12]
