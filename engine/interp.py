"""Abstract interpreter over Python syntax trees producing gated value graphs.

Nothing of the analysed source is imported or run: every construct is given abstract meaning here.
Control flow that depends on symbolic inputs is joined with gates; there is no path enumeration and no solver.
"""
import ast
import math
import os
import time
from fractions import Fraction as Fr
import numpy as np          # names of attributes only
from . import nodes as N
from .nodes import Unsupported
from .values import (NeedSplit, InterpRaise, Num, Cx, CondV, cond, Ref, Choice, UNDEF, Func, Bound, Builtin, Part,
                     Wrapped, ClassV, NT, Mod, Opaque, Exc, Obj, Slice, Facts, State, alloc, tonode, isnum, mknum,
                     same, merge_val, merge_states)


class FInfo:
    __slots__ = ('locals', 'globals', 'nonlocals', 'isgen', 'hasinner')


def _targets(t, s):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            s.add(n.id)


def finfo(node):
    r = getattr(node, '_finfo', None)
    if r is not None:
        return r
    r = FInfo()
    r.locals, r.globals, r.nonlocals = set(), set(), set()
    r.isgen = r.hasinner = False
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        r.locals.add(x.arg)
    if a.vararg:
        r.locals.add(a.vararg.arg)
    if a.kwarg:
        r.locals.add(a.kwarg.arg)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            r.locals.add(n.name)
            r.hasinner = True
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            r.hasinner = True
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            r.hasinner = True
            for g in n.generators:
                walk(g.iter)
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    r.locals.add(sub.target.id)
                if isinstance(sub, ast.Lambda):
                    r.hasinner = True
            return
        if isinstance(n, ast.Global):
            r.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            r.nonlocals.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            r.locals.add(n.id)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            r.isgen = True
        elif isinstance(n, ast.ExceptHandler) and n.name:
            r.locals.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                r.locals.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.MatchAs) and n.name:
            r.locals.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            r.locals.add(n.name)
        for ch in ast.iter_child_nodes(n):
            walk(ch)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    r.locals -= r.globals | r.nonlocals
    node._finfo = r
    return r


class Frame:
    __slots__ = ('ns', 'scope', 'info', 'mod', 'modns', 'file', 'func', 'yields', 'cls')

    def __init__(self, ns, scope, info, modns, file, mod, func=None):
        self.ns, self.scope, self.info, self.modns, self.file, self.mod = ns, scope, info, modns, file, mod
        self.func = func
        self.yields = None
        self.cls = None


TREES = {}


STANDINS = '/spec/standins/'
STANDIN_MODS = {'os', 'shapely', 'pyproj', 'rasterstats', 'fiona', 'csv', 'configparser', 'pathlib', 'pandas', 'shutil', 'tempfile', 'io',
                'rasterio', 'glob', 'geopandas', 'json', 'codecs'}


NONCE = [0]
ND = ('random', 'time', 'datetime', 'secrets', 'uuid', 'socket', 'getpass', 'platform', 'os', 'sys', 'open', 'input', 'numpy.random', 'np.random',
      'builtins.open', 'builtins.input', 'tempfile', 'subprocess', 'urllib', 'shelve', 'sqlite3', 'locale')


def nondet(dn):
    return any(dn == x or dn.startswith(x + '.') for x in ND)


class Interp:
    def __init__(self, paths, max_steps=400000, time_limit=120, summaries=None, sources=None):
        self.paths = paths               # search path for source modules
        self.sources = sources or {}     # module name -> (text, filename)
        self.steps = 0
        self.max_steps = max_steps
        self.deadline = time.time() + time_limit
        self.depth = 0
        self.trydepth = 0
        self.standins = any(STANDINS in p + '/' for p in paths)
        self.summaries = summaries or {}
        self.opaque_dom = {}
        self.funcs_seen = set()
        self.calls_seen = 0
        self.stmts_seen = set()
        self.fault_sites = set()
        self.mods = {}
        self.extern_calls = set()
        self.listening = None         # the record of printed lines, where a check keeps one
        from . import models
        self.models = models
        self.builtins = models.BUILTINS
        self.sysmods = None

    # -------------------------------------------------------------- modules
    def new_state(self):
        st = State()
        self.sysmods = alloc(st, Obj('ns', {}))
        return st

    def find_module(self, name):
        if name in self.sources:
            return self.sources[name]
        rel = name.replace('.', '/')
        for p in self.paths:
            for c in (os.path.join(p, rel + '.py'), os.path.join(p, rel, '__init__.py')):
                if os.path.isfile(c):
                    with open(c, encoding='utf-8') as fh:
                        return fh.read(), c
            if os.path.isdir(os.path.join(p, rel)):
                return '', os.path.join(p, rel)
        return None

    def import_module(self, name, st):
        sm = st.obj(self.sysmods)
        if name in sm.d and sm.d[name] is not UNDEF:
            return sm.d[name]
        if '.' in name:
            self.import_module(name.rsplit('.', 1)[0], st)
            sm = st.obj(self.sysmods)
            if name in sm.d:
                return sm.d[name]
        src = self.find_module(name)
        if src is None:
            m = Mod(name)
            d = dict(sm.d)
            d[name] = m
            st.heap[self.sysmods.id] = Obj('ns', d)
            return m
        text, fn = src
        try:
            tree = TREES.get((fn, text))
            if tree is None:
                tree = TREES[(fn, text)] = ast.parse(text, fn)
        except SyntaxError as e:
            raise Unsupported('syntax error in %s: %s' % (fn, e))
        ns = alloc(st, Obj('ns', {'__name__': name, '__file__': fn}))
        m = Mod(name, ns)
        d = dict(st.obj(self.sysmods).d)
        d[name] = m
        st.heap[self.sysmods.id] = Obj('ns', d)
        fr = Frame(ns, (), None, ns, fn, name)
        outs = self.exec_block(tree.body, st, fr)
        if 'normal' not in outs or len(outs) > 1:
            if 'raise' in outs and outs['raise'][0] is N.TRUE:
                raise InterpRaise(outs['raise'][1], outs['raise'][2])
            raise Unsupported('module %s does not complete normally' % name)
        ns2 = outs['normal'][2]
        st.heap, st.facts, st.path, st.faults, st.log = ns2.heap, ns2.facts, ns2.path, ns2.faults, ns2.log
        if '.' in name:
            par, last = name.rsplit('.', 1)
            pm = st.obj(self.sysmods).d.get(par)
            if isinstance(pm, Mod) and pm.ref is not None:
                o = st.obj(pm.ref)
                if last not in o.d:
                    d = dict(o.d)
                    d[last] = m
                    st.heap[pm.ref.id] = Obj('ns', d)
        return m

    # -------------------------------------------------------------- helpers
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step budget exhausted')
        if self.steps % 2000 == 0 and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')

    def err(self, cls, msg='', st=None):
        if N.CURLOC[0] and STANDINS in str(N.CURLOC[0][0]):
            raise Unsupported('%s in the model of an external library: %s' % (cls.__name__, msg))
        return InterpRaise(Exc(cls, (msg,), N.CURLOC[0]), st)

    def fault(self, st, kind, c):
        """record an implicit fault possible under condition c"""
        d = st.decide(c)
        self.fault_sites.add((kind, N.CURLOC[0]))
        if d is False:
            return
        if d is None and self.trydepth > 0:
            raise NeedSplit(c)
        if d is True and self.trydepth > 0:
            cls = {'ZeroDivisionError': ZeroDivisionError, 'ValueError': ValueError, 'IndexError': IndexError,
                   'KeyError': KeyError}.get(kind)
            if cls:
                raise self.err(cls, kind, st)
        st.faults = st.faults + ((kind, c, st.path, N.CURLOC[0]),)

    def norm(self, v, st):
        """simplify by path facts"""
        while True:
            if isinstance(v, Choice):
                d = st.decide(v.c)
                if d is True:
                    v = v.a
                elif d is False:
                    v = v.b
                else:
                    return v
            elif isinstance(v, Num):
                n = self.simp(v.n, st)
                if n is not v.n:
                    v = mknum(n, v.i)
                else:
                    if v.i and n.op == 'c':
                        return mknum(n, True)
                    return v
            elif isinstance(v, CondV):
                d = st.decide(v.c)
                return v if d is None else d
            else:
                return v

    def simp(self, n, st):
        while n.op == 'ite':
            d = st.decide(n.a[0])
            if d is True:
                n = n.a[1]
            elif d is False:
                n = n.a[2]
            else:
                break
        if n.op == 'f' and n.a[0] in ('max', 'min') and st.facts.bnd and len(n.a) == 4:
            x, y = n.a[1], n.a[2]
            d = st.decide(N.lt(x, y))
            if d is not None:
                n = (y if d else x) if n.a[0] == 'max' else (x if d else y)
        return n

    def force(self, v, st):
        """resolve a Choice, splitting if undecided"""
        v = self.norm(v, st)
        if isinstance(v, Choice):
            raise NeedSplit(v.c)
        return v

    def num(self, v, st):
        """numeric node of value or raise TypeError"""
        if isinstance(v, Num):
            return v.n
        if isinstance(v, bool):
            return N.const(int(v))
        if isinstance(v, int):
            return N.const(v)
        v = self.force(v, st)
        if isinstance(v, Num):
            return v.n
        if isinstance(v, (bool, int)):
            return N.const(int(v))
        if isinstance(v, CondV):
            return N.ite(v.c, N.const(1), N.const(0))
        if isinstance(v, Opaque):
            return self.opq(v)
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ('arr', 'list') and o.x == '0d':
                return self.num(o.d[0], st)
            if o.kind not in ('list', 'dict', 'set'):
                raise Unsupported('number from %s' % o.kind)
        raise self.err(TypeError, 'number expected', st)

    def opq(self, v):
        lo, hi = -N.INF, N.INF
        if isinstance(v.t, tuple) and v.t[0] == 'nd' and self.models.dotted(v.t[2]) in ('random.random', 'numpy.random.rand', 'numpy.random.random'):
            lo, hi = 0, 1
        for pat, dom in self.opaque_dom.items():
            if pat in repr(v.t):
                lo, hi = dom
                break
        return N.sym('ext:' + repr(v.t)[:300], lo, hi)

    def isint(self, v):
        return isinstance(v, int) or isinstance(v, CondV) or (isinstance(v, Num) and v.i)

    def truth(self, v, st):
        """condition"""
        v = self.norm(v, st)
        if v is None:
            return N.FALSE
        if isinstance(v, bool):
            return N.cc(v)
        if isinstance(v, (int, str, bytes)):
            return N.cc(bool(v))
        if isinstance(v, CondV):
            return v.c
        if isinstance(v, Num):
            return N.cnot(N.eq(v.n, N.const(0)))
        if isinstance(v, Cx):
            return N.cnot(N.cand(N.eq(v.re, N.const(0)), N.eq(v.im, N.const(0))))
        if isinstance(v, tuple):
            return N.cc(len(v) > 0)
        if isinstance(v, NT):
            return N.cc(len(v.items) > 0)
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ('list', 'arr', 'ma'):
                return N.cc(len(o.d) > 0)
            if o.kind in ('dict', 'set'):
                r = N.FALSE
                for x in o.d.values():
                    r = N.cor(r, x[1])
                return r
            if o.kind == 'inst':
                m = self.class_attr(o.x, '__bool__', st) or self.class_attr(o.x, '__len__', st)
                if m is not None:
                    return self.truth(self.call(Bound(m, v), [], {}, st), st)
            return N.TRUE
        if isinstance(v, Opaque):
            return N.boolsym('ext:' + repr(v.t)[:300])
        if isinstance(v, Choice):
            return N.cite(v.c, self.truth(v.a, st), self.truth(v.b, st))
        return N.TRUE

    def branch(self, c, st):
        """True / False / None"""
        return st.decide(c)

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, st, fr):
        outs = {}
        alive = N.TRUE
        start = st
        cur = st
        for s in stmts:
            o = self.exec_stmt(s, cur.copy(), fr)
            nxt = None
            for k, (c, v, ns) in o.items():
                if k == 'normal':
                    nxt = (c, ns)
                    continue
                c2 = N.cand(alive, c)
                if k in outs:
                    oc, ov, os_ = outs[k]
                    # earlier outcome selected by oc
                    tot = N.cor(oc, c2)
                    ms, (mv,) = merge_states(oc, os_, ns, [(ov, v)], start, tot)
                    outs[k] = (tot, mv, ms)
                else:
                    outs[k] = (c2, v, ns)
            if nxt is None:
                return outs
            alive = N.cand(alive, nxt[0])
            cur = nxt[1]
        outs['normal'] = (alive, None, cur)
        return outs

    def merge_outs(self, c, A, B, parent):
        out = {}
        for k in ('normal', 'return', 'break', 'continue', 'raise'):
            if k in A and k in B:
                ca, va, sa = A[k]
                cb, vb, sb = B[k]
                tot = N.cite(c, ca, cb)
                ms, (mv,) = merge_states(c, sa, sb, [(va, vb)], parent, tot)
                out[k] = (tot, mv, ms)
            elif k in A:
                ca, va, sa = A[k]
                out[k] = (N.cand(c, ca), va, sa)
            elif k in B:
                cb, vb, sb = B[k]
                out[k] = (N.cand(N.cnot(c), cb), vb, sb)
        return out

    def split(self, c, snap, f):
        d = snap.decide(c)
        if d is not None:
            # facts decide it already: state it explicitly and retry once
            s = snap.copy()
            s.facts = snap.facts.assume(c, d)
            return f(s)
        A = f(snap.assume(c, True))
        B = f(snap.assume(c, False))
        return self.merge_outs(c, A, B, snap)

    def exec_stmt(self, s, st, fr, n=0):
        self.tick()
        if n > 40:
            raise Unsupported('too many splits in one statement')
        loc = (fr.file, s.lineno)
        N.CURLOC[0] = loc
        self.stmts_seen.add(loc)
        snap = st.copy()
        td, dp = self.trydepth, self.depth
        try:
            return self._exec(s, st, fr)
        except NeedSplit as e:
            self.trydepth, self.depth = td, dp
            return self.split(e.c, snap, lambda x: self.exec_stmt(s, x, fr, n + 1))
        except InterpRaise as e:
            self.trydepth, self.depth = td, dp
            return {'raise': (N.TRUE, e.exc, e.st if e.st is not None else st)}

    def _exec(self, s, st, fr):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s:%d' % (type(s).__name__, fr.file, s.lineno))
        r = m(s, st, fr)
        if r is None:
            return {'normal': (N.TRUE, None, st)}
        return r

    def x_Pass(self, s, st, fr):
        pass

    def x_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, st, fr)

    def x_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)

    def x_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        elif fr.cls is not None and isinstance(s.target, ast.Name):
            fr.cls.append((s.target.id, UNDEF))
        if fr.cls is not None and s.value is not None and isinstance(s.target, ast.Name):
            fr.cls.append((s.target.id, self.lookup(s.target.id, st, fr)))

    def x_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st, fr)
            v = self.ev(s.value, st, fr)
            self.assign(t, self.augop(s.op, old, v, st), st, fr)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fr)
            i = self.ev_slice(t.slice, st, fr)
            old = self.getitem(b, i, st)
            v = self.ev(s.value, st, fr)
            self.setitem(b, i, self.augop(s.op, old, v, st), st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr)
            old = self.getattr(b, t.attr, st)
            v = self.ev(s.value, st, fr)
            self.setattr(b, t.attr, self.augop(s.op, old, v, st), st)
        else:
            raise Unsupported('augmented target')

    def augop(self, op, old, v, st):
        old = self.norm(old, st)
        if isinstance(old, Ref):
            o = st.obj(old)
            if o.kind == 'list' and isinstance(op, ast.Add):
                st.heap[old.id] = Obj('list', o.d + tuple(self.iterate(v, st)), o.x)
                return old
            if o.kind == 'list' and isinstance(op, ast.Mult):
                r = self.binop(op, old, v, st)
                st.heap[old.id] = Obj('list', st.obj(r).d, o.x)
                return old
            if o.kind == 'arr':
                r = self.binop(op, old, v, st)
                st.heap[old.id] = Obj('arr', st.obj(r).d, o.x)
                return old
            if o.kind in ('dict', 'set') and isinstance(op, ast.BitOr):
                self.models.dict_update(self, st, old, v)
                return old
        return self.binop(op, old, v, st)

    def x_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else None
        return {'return': (N.TRUE, v, st)}

    def x_Break(self, s, st, fr):
        return {'break': (N.TRUE, None, st)}

    def x_Continue(self, s, st, fr):
        return {'continue': (N.TRUE, None, st)}

    def x_If(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        d = st.decide(c)
        if d is True:
            return self.exec_block(s.body, st, fr)
        if d is False:
            return self.exec_block(s.orelse, st, fr)
        A = self.exec_block(s.body, st.assume(c, True), fr)
        B = self.exec_block(s.orelse, st.assume(c, False), fr)
        return self.merge_outs(c, A, B, st)

    def x_Assert(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        d = st.decide(c)
        if d is True:
            return None
        if d is False:
            raise self.err(AssertionError, '', st)
        raise NeedSplit(c)

    def _loop_exit(self, acc, k, cnd, v, ns, start):
        if k in acc:
            oc, ov, os_ = acc[k]
            tot = N.cor(oc, cnd)
            ms, (mv,) = merge_states(oc, os_, ns, [(ov, v)], start, tot)
            acc[k] = (tot, mv, ms)
        else:
            acc[k] = (cnd, v, ns)

    def _finish_loop(self, s, acc, alive, cur, start, fr, ended):
        """ended: loop ran to exhaustion in state cur under alive"""
        outs = {k: v for k, v in acc.items() if k in ('return', 'raise')}
        brk = acc.get('break')
        if ended:
            if s.orelse:
                o = self.exec_block(s.orelse, cur, fr)
                for k, (c, v, ns) in o.items():
                    if k == 'normal':
                        continue
                    self._loop_exit(outs, k, N.cand(alive, c), v, ns, start)
                if 'normal' in o:
                    alive, cur = N.cand(alive, o['normal'][0]), o['normal'][2]
                else:
                    ended = False
        if ended and brk:
            tot = N.cor(brk[0], alive)
            ms, _ = merge_states(brk[0], brk[2], cur, [], start, tot)
            outs['normal'] = (tot, None, ms)
        elif ended:
            outs['normal'] = (alive, None, cur)
        elif brk:
            outs['normal'] = (brk[0], None, brk[2])
        return outs

    def _body_once(self, body, cur, alive, acc, start, fr):
        """-> (alive', state') or None when no iteration continues"""
        o = self.exec_block(body, cur, fr)
        nx = None
        cont = {}
        for k in ('normal', 'continue'):
            if k in o:
                cont[k] = o[k]
        for k, (c, v, ns) in o.items():
            if k in ('normal', 'continue'):
                continue
            self._loop_exit(acc, k, N.cand(alive, c), v, ns, start)
        if len(cont) == 2:
            cc_, _, cs = cont['continue']
            nc_, _, nst = cont['normal']
            tot = N.cor(cc_, nc_)
            ms, _ = merge_states(cc_, cs, nst, [], cur, tot)
            nx = (N.cand(alive, tot), ms)
        elif cont:
            (c, _, ns), = cont.values()
            nx = (N.cand(alive, c), ns)
        return nx

    def x_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        start = st
        items = self.iterate(it, st)
        cur, alive, acc = st.copy(), N.TRUE, {}
        for v in items:
            # assignment of loop target may split: wrap as statement
            o = self.run_small(lambda x: self.assign(s.target, v, x, fr), cur, s, fr)
            if set(o) != {'normal'}:
                for k, (c, vv, ns) in o.items():
                    if k != 'normal':
                        self._loop_exit(acc, k, N.cand(alive, c), vv, ns, start)
                if 'normal' not in o:
                    return self._finish_loop(s, acc, alive, cur, start, fr, False)
            alive, cur = N.cand(alive, o['normal'][0]), o['normal'][2]
            nx = self._body_once(s.body, cur, alive, acc, start, fr)
            if nx is None:
                return self._finish_loop(s, acc, alive, cur, start, fr, False)
            alive, cur = nx
        return self._finish_loop(s, acc, alive, cur, start, fr, True)

    def run_small(self, f, st, s, fr, n=0):
        snap = st.copy()
        x = st.copy()
        try:
            f(x)
            return {'normal': (N.TRUE, None, x)}
        except NeedSplit as e:
            if n > 20:
                raise Unsupported('splits')
            return self.split(e.c, snap, lambda y: self.run_small(f, y, s, fr, n + 1))
        except InterpRaise as e:
            return {'raise': (N.TRUE, e.exc, e.st or x)}

    def x_While(self, s, st, fr):
        start = st
        cur, alive, acc = st.copy(), N.TRUE, {}
        exits = []   # (cond, state) of normal termination
        und = 0
        for it in range(20000):
            self.tick()
            box = []

            def test(x):
                box.append(self.truth(self.ev(s.test, x, fr), x))
            # evaluate the test (may have side effects / splits)
            x = cur.copy()
            snap = cur.copy()
            try:
                c = self.truth(self.ev(s.test, x, fr), x)
                cur = x
            except NeedSplit as e:
                if it == 0:
                    raise
                # restart the remaining loop under the split
                A = B = None
                rest = lambda y: self.x_While(s, y, fr)
                o = self.split(e.c, snap, rest)
                for k, (cc_, v, ns) in o.items():
                    if k == 'normal':
                        exits.append((N.cand(alive, cc_), ns))
                    else:
                        self._loop_exit(acc, k, N.cand(alive, cc_), v, ns, start)
                return self._while_done(s, acc, exits, start, fr)
            d = cur.decide(c)
            if d is False:
                exits.append((alive, cur))
                return self._while_done(s, acc, exits, start, fr)
            if d is None:
                und += 1
                if und > 48:
                    raise Unsupported('unbounded symbolic loop at %s:%d' % (fr.file, s.lineno))
                exits.append((N.cand(alive, N.cnot(c)), cur.assume(c, False)))
                cur = cur.assume(c, True)
                alive = N.cand(alive, c)
            nx = self._body_once(s.body, cur, alive, acc, start, fr)
            if nx is None:
                return self._while_done(s, acc, exits, start, fr)
            alive, cur = nx
        raise Unsupported('loop bound at %s:%d' % (fr.file, s.lineno))

    def _while_done(self, s, acc, exits, start, fr):
        if not exits:
            return self._finish_loop(s, acc, None, None, start, fr, False)
        c, cs = exits[-1]
        for ec, es in reversed(exits[:-1]):
            tot = N.cor(ec, c)
            cs, _ = merge_states(ec, es, cs, [], start, tot)
            c = tot
        return self._finish_loop(s, acc, c, cs, start, fr, True)

    def x_FunctionDef(self, s, st, fr):
        f = self.mkfunc(s, st, fr)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st, fr)
        self.setname(s.name, v, st, fr)

    def decorate(self, d, v, st, fr):
        dv = self.ev(d, st, fr)
        dv = self.force(dv, st)
        if isinstance(dv, Opaque):
            t = repr(dv.t)
            return v
        return self.call(dv, [v], {}, st)

    def mkfunc(self, s, st, fr):
        f = Func()
        f.node = s
        f.modns = fr.modns
        f.info = finfo(s)
        f.name = getattr(s, 'name', '<lambda>')
        f.file = fr.file
        f.mod = fr.mod
        f.cls = None
        # scope: enclosing function namespaces (class bodies are skipped)
        if fr.info is not None and fr.info != 'class':
            f.scope = (fr.ns,) + fr.scope
        else:
            f.scope = fr.scope
        a = s.args
        f.defaults = [self.ev(x, st, fr) for x in a.defaults]
        f.kwdefaults = [self.ev(x, st, fr) if x is not None else UNDEF for x in a.kw_defaults]
        f.isgen = f.info.isgen
        return f

    def x_ClassDef(self, s, st, fr):
        bases = [self.force(self.ev(b, st, fr), st) for b in s.bases]
        ns = alloc(st, Obj('ns', {}))
        cf = Frame(ns, ((fr.ns,) + fr.scope) if fr.info not in (None, 'class') else fr.scope, 'class', fr.modns, fr.file, fr.mod)
        cf.cls = []
        o = self.exec_block(s.body, st.copy(), cf)
        if set(o) != {'normal'}:
            raise Unsupported('class body')
        n2 = o['normal'][2]
        st.heap, st.facts, st.path, st.faults, st.log = n2.heap, n2.facts, n2.path, n2.faults, n2.log
        py = None
        for b in bases:
            if isinstance(b, ClassV) and b.py:
                py = b.py
            if isinstance(b, type):
                py = b
        c = ClassV(s.name, [b for b in bases if isinstance(b, ClassV)], ns, py)
        fields = []
        for b in c.bases:
            if b.fields:
                fields += b.fields
        for nm, dv in cf.cls:
            fields = [x for x in fields if x[0] != nm] + [(nm, dv)]
        c.fields = fields
        c.standin = STANDINS in str(fr.file)
        for b in bases:
            if isinstance(b, Builtin) and b.name == 'typing.NamedTuple':
                c.kind = 'nt'
            if isinstance(b, Opaque) and 'Enum' in repr(b.t):
                c.kind = 'enum'
            if isinstance(b, ClassV) and b.kind:
                c.kind = b.kind
        v = c
        for d in reversed(s.decorator_list):
            dv = self.force(self.ev(d, st, fr), st)
            if isinstance(dv, Builtin):
                v = self.call(dv, [v], {}, st)
        self.setname(s.name, v, st, fr)

    def x_Import(self, s, st, fr):
        for al in s.names:
            m = self.import_module(al.name, st)
            if al.asname:
                self.setname(al.asname, m, st, fr)
            else:
                top = al.name.split('.')[0]
                self.setname(top, self.import_module(top, st), st, fr)

    def x_ImportFrom(self, s, st, fr):
        if s.module == '__future__':
            return
        name = s.module or ''
        if s.level:
            base = fr.mod.split('.')
            isp = fr.file.endswith('__init__.py')
            cut = s.level - (1 if isp else 0)
            base = base[:len(base) - cut] if cut else base
            name = '.'.join(base + ([name] if name else []))
        m = self.import_module(name, st)
        for al in s.names:
            if al.name == '*':
                if m.ref is None:
                    for k, v in self.models.module_all(m.name).items():
                        self.setname(k, v, st, fr)
                    continue
                for k, v in st.obj(m.ref).d.items():
                    if not k.startswith('_'):
                        self.setname(k, v, st, fr)
                continue
            v = None
            if m.ref is not None:
                o = st.obj(m.ref)
                if al.name in o.d:
                    v = o.d[al.name]
                elif self.find_module(name + '.' + al.name):
                    v = self.import_module(name + '.' + al.name, st)
                elif STANDINS in str(o.d.get('__file__')):
                    v = Opaque(('mod', name, al.name))
                else:
                    raise self.err(ImportError, al.name, st)
            else:
                v = self.getattr(m, al.name, st)
            self.setname(al.asname or al.name, v, st, fr)

    def x_Global(self, s, st, fr):
        pass

    def x_Nonlocal(self, s, st, fr):
        pass

    def x_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                ns = self.nsfor(t.id, st, fr)
                o = st.obj(ns)
                d = dict(o.d)
                if t.id not in d:
                    raise self.err(NameError, t.id, st)
                del d[t.id]
                st.heap[ns.id] = Obj('ns', d)
            elif isinstance(t, ast.Subscript):
                b = self.force(self.ev(t.value, st, fr), st)
                i = self.ev_slice(t.slice, st, fr)
                self.delitem(b, i, st)
            elif isinstance(t, ast.Attribute):
                b = self.force(self.ev(t.value, st, fr), st)
                o = st.obj(b)
                d = dict(o.d)
                d.pop(t.attr, None)
                st.heap[b.id] = Obj(o.kind, d, o.x)
            else:
                raise Unsupported('del')

    def x_Raise(self, s, st, fr):
        if s.exc is None:
            cur = self.lookup_opt('$exc', st, fr)
            if isinstance(cur, Exc):
                raise InterpRaise(cur, st)
            raise self.err(RuntimeError, 'no active exception', st)
        v = self.force(self.ev(s.exc, st, fr), st)
        raise InterpRaise(self.mkexc(v, st), st)

    def mkexc(self, v, st):
        if isinstance(v, Exc):
            return v
        if isinstance(v, type):
            return Exc(v, (), N.CURLOC[0])
        if isinstance(v, ClassV):
            return Exc(v, (), N.CURLOC[0])
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind == 'inst':
                return Exc(o.x, (), N.CURLOC[0])
        return Exc(Exception, (), N.CURLOC[0])

    def exc_matches(self, exc, spec, st):
        spec = self.force(spec, st)
        if isinstance(spec, tuple):
            return any(self.exc_matches(exc, x, st) for x in spec)
        if isinstance(spec, type):
            c = exc.cls
            if isinstance(c, ClassV):
                return c.py is not None and issubclass(c.py, spec)
            return issubclass(c, spec)
        if isinstance(spec, ClassV):
            c = exc.cls
            while isinstance(c, ClassV):
                if c is spec:
                    return True
                c = c.bases[0] if c.bases else None
            return False
        if isinstance(spec, Opaque):
            return False
        return False

    def x_Try(self, s, st, fr):
        self.trydepth += 1 if s.handlers else 0
        try:
            o = self.exec_block(s.body, st.copy(), fr)
        finally:
            self.trydepth -= 1 if s.handlers else 0
        outs = {}
        if 'raise' in o and s.handlers:
            rc, exc, rs = o['raise']
            if isinstance(exc, Choice):
                raise NeedSplit(exc.c)
            h = None
            for hd in s.handlers:
                if hd.type is None or self.exc_matches(exc, self.ev(hd.type, rs, fr), rs):
                    h = hd
                    break
            if h is not None:
                del o['raise']
                if h.name:
                    self.setname(h.name, exc, rs, fr)
                self.setname('$exc', exc, rs, fr)
                ho = self.exec_block(h.body, rs, fr)
                ho = {k: (N.cand(rc, c), v, x) for k, (c, v, x) in ho.items()}
            else:
                ho = {}
                rc = None
        else:
            ho = {}
            rc = None
        if 'normal' in o and s.orelse:
            c0, _, ns = o.pop('normal')
            eo = self.exec_block(s.orelse, ns, fr)
            for k, (c, v, x) in eo.items():
                c = N.cand(c0, c)
                if k in o:
                    oc, ov, os_ = o[k]
                    tot = N.cor(oc, c)
                    ms, (mv,) = merge_states(oc, os_, x, [(ov, v)], st, tot)
                    o[k] = (tot, mv, ms)
                else:
                    o[k] = (c, v, x)
        if ho:
            if not o:
                outs = ho
            else:
                A = ho
                outs = {}
                for k in set(A) | set(o):
                    if k in A and k in o:
                        ca, va, sa = A[k]
                        cb, vb, sb = o[k]
                        tot = N.cor(ca, cb)
                        ms, (mv,) = merge_states(ca, sa, sb, [(va, vb)], st, tot)
                        outs[k] = (tot, mv, ms)
                    else:
                        outs[k] = A.get(k) or o.get(k)
        else:
            outs = o
        if s.finalbody:
            res = {}
            for k, (c, v, x) in outs.items():
                fo = self.exec_block(s.finalbody, x, fr)
                for k2, (c2, v2, x2) in fo.items():
                    kk, vv = (k, v) if k2 == 'normal' else (k2, v2)
                    cx = N.cand(c, c2)
                    if kk in res:
                        oc, ov, os_ = res[kk]
                        tot = N.cor(oc, cx)
                        ms, (mv,) = merge_states(oc, os_, x2, [(ov, vv)], st, tot)
                        res[kk] = (tot, mv, ms)
                    else:
                        res[kk] = (cx, vv, x2)
            outs = res
        return outs

    x_TryStar = x_Try

    def x_With(self, s, st, fr):
        ents = []
        for it in s.items:
            v = self.force(self.ev(it.context_expr, st, fr), st)
            if isinstance(v, Ref) and st.obj(v).kind == 'inst' and self.class_attr(st.obj(v).x, '__enter__', st) is not None:
                e = self.call(Bound(self.class_attr(st.obj(v).x, '__enter__', st), v), [], {}, st)
                ents.append(v)
            else:
                e = v
            if it.optional_vars is not None:
                self.assign(it.optional_vars, e, st, fr)
        outs = self.exec_block(s.body, st, fr)
        for it_v in reversed(ents):
            for kind in list(outs):
                if kind == 'raise':
                    continue
                c, v, s2 = outs[kind]
                m = self.class_attr(s2.obj(it_v).x, '__exit__', s2)
                if m is not None:
                    s2 = s2.copy()
                    self.call(Bound(m, it_v), [None, None, None], {}, s2)
                    outs[kind] = (c, v, s2)
        return outs

    def x_Match(self, s, st, fr):
        subj = self.ev(s.subject, st, fr)

        def go(i, x):
            if i >= len(s.cases):
                return {'normal': (N.TRUE, None, x)}
            cs = s.cases[i]
            binds = {}
            c = self.pattern(cs.pattern, subj, x, fr, binds)
            if c is not N.FALSE:
                y = x.assume(c, True) if x.decide(c) is None else x.copy()
                for k, v in binds.items():
                    self.setname(k, v, y, fr)
                if cs.guard is not None:
                    g = self.truth(self.ev(cs.guard, y, fr), y)
                    c = N.cand(c, g)
            d = x.decide(c)
            if d is False:
                return go(i + 1, x)
            if d is True:
                for k, v in binds.items():
                    self.setname(k, v, x, fr)
                return self.exec_block(cs.body, x, fr)
            y = x.assume(c, True)
            for k, v in binds.items():
                self.setname(k, v, y, fr)
            A = self.exec_block(cs.body, y, fr)
            B = go(i + 1, x.assume(c, False))
            return self.merge_outs(c, A, B, x)
        return go(0, st)

    def pattern(self, p, v, st, fr, binds):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.ev(p.value, st, fr), st), st)
        if isinstance(p, ast.MatchSingleton):
            return N.cc(self.norm(v, st) is p.value)
        if isinstance(p, ast.MatchAs):
            c = N.TRUE if p.pattern is None else self.pattern(p.pattern, v, st, fr, binds)
            if p.name:
                binds[p.name] = v
            return c
        if isinstance(p, ast.MatchOr):
            c = N.FALSE
            for q in p.patterns:
                c = N.cor(c, self.pattern(q, v, st, fr, binds))
            return c
        if isinstance(p, ast.MatchSequence):
            v = self.force(v, st)
            if isinstance(v, Ref):
                o = st.obj(v)
                if o.kind != 'list':
                    return N.FALSE
                v = o.d
            if not isinstance(v, tuple) or len(v) != len(p.patterns):
                return N.FALSE
            c = N.TRUE
            for q, x in zip(p.patterns, v):
                c = N.cand(c, self.pattern(q, x, st, fr, binds))
            return c
        raise Unsupported('match pattern')

    # -------------------------------------------------------------- names
    def nsfor(self, name, st, fr):
        if fr.info is not None and fr.info != 'class':
            if name in fr.info.globals:
                return fr.modns
            if name in fr.info.nonlocals:
                for ns in fr.scope:
                    if name in st.obj(ns).d:
                        return ns
        return fr.ns

    def setname(self, name, v, st, fr):
        ns = self.nsfor(name, st, fr)
        o = st.obj(ns)
        d = dict(o.d)
        d[name] = v
        st.heap[ns.id] = Obj('ns', d)

    def lookup_opt(self, name, st, fr):
        for ns in (fr.ns,) + fr.scope + (fr.modns,):
            d = st.obj(ns).d
            if name in d:
                return d[name]
        return None

    def lookup(self, name, st, fr):
        d = st.heap[fr.ns.id]
        if d.kind == 'choice':
            d = st.obj(fr.ns)
        d = d.d
        if name in d and not (fr.info is not None and fr.info != 'class' and name in fr.info.globals):
            v = d[name]
            if v is UNDEF:
                raise self.err(UnboundLocalError, name, st)
            if type(v) is Choice:
                v = self.norm(v, st)
                if isinstance(v, Choice) and (v.a is UNDEF or v.b is UNDEF):
                    raise NeedSplit(v.c)
                if v is UNDEF:
                    raise self.err(UnboundLocalError, name, st)
            elif type(v) is Num or type(v) is CondV:
                v = self.norm(v, st)
            return v
        if fr.info is not None and fr.info != 'class' and name in fr.info.locals:
            raise self.err(UnboundLocalError, name, st)
        for ns in fr.scope + (fr.modns,):
            d = st.obj(ns).d
            if name in d:
                v = self.norm(d[name], st)
                if v is UNDEF:
                    raise self.err(NameError, name, st)
                if isinstance(v, Choice) and (v.a is UNDEF or v.b is UNDEF):
                    raise NeedSplit(v.c)
                return v
        if name in self.builtins:
            return self.builtins[name]
        raise self.err(NameError, name, st)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v, st)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise self.err(ValueError, 'unpack', st)
                for e, x in zip(t.elts[:i], vs[:i]):
                    self.assign(e, x, st, fr)
                mid = vs[i:len(vs) - after]
                self.assign(t.elts[i].value, alloc(st, Obj('list', tuple(mid))), st, fr)
                for e, x in zip(t.elts[i + 1:], vs[len(vs) - after:]):
                    self.assign(e, x, st, fr)
            else:
                if len(vs) != len(t.elts):
                    raise self.err(ValueError, 'unpack', st)
                for e, x in zip(t.elts, vs):
                    self.assign(e, x, st, fr)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fr)
            i = self.ev_slice(t.slice, st, fr)
            self.setitem(b, i, v, st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr)
            self.setattr(b, t.attr, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            raise Unsupported('assignment target')

    # -------------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s:%d' % (type(e).__name__, fr.file, e.lineno))
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return v
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            if math.isinf(v) or math.isnan(v):
                return Opaque(('float', repr(v)))
            return Num(N.const(Fr(repr(v))), False)
        if isinstance(v, complex):
            return Cx(N.const(Fr(repr(v.real))), N.const(Fr(repr(v.imag))))
        raise Unsupported('constant')

    def e_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.setname(e.target.id, v, st, fr)
        return v

    def e_Tuple(self, e, st, fr):
        return tuple(self.evlist(e.elts, st, fr))

    def evlist(self, elts, st, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, st, fr), st))
            else:
                out.append(self.ev(x, st, fr))
        return out

    def e_List(self, e, st, fr):
        return alloc(st, Obj('list', tuple(self.evlist(e.elts, st, fr))))

    def e_Set(self, e, st, fr):
        return self.mkset(self.evlist(e.elts, st, fr), st)

    def mkset(self, vs, st):
        r = alloc(st, Obj('set', {}))
        for v in vs:
            self.dict_set(r, v, None, st)
        return r

    def e_Dict(self, e, st, fr):
        r = alloc(st, Obj('dict', {}))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.dict_update(self, st, r, self.ev(v, st, fr))
            else:
                kk = self.ev(k, st, fr)
                self.dict_set(r, kk, self.ev(v, st, fr), st)
        return r

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, st, fr)
                spec = None
                if x.format_spec is not None:
                    spec = self.e_JoinedStr(x.format_spec, st, fr)
                parts += self.models.hole(self, st, v, spec if spec is None or isinstance(spec, str) else repr(spec), x.conversion)
        return self.models.sstr(parts)

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Starred(self, e, st, fr):
        raise Unsupported('starred')

    def e_UnaryOp(self, e, st, fr):
        v = self.norm(self.ev(e.operand, st, fr), st)
        if isinstance(e.op, ast.Not):
            return cond(N.cnot(self.truth(v, st)))
        if isinstance(v, Choice):
            raise NeedSplit(v.c)
        m = self.method(v, {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(e.op)], st)
        if m is not None:
            return self.call(m, [], {}, st)
        if isinstance(v, Ref) and st.obj(v).kind in ('arr',):
            o = st.obj(v)
            return alloc(st, Obj('arr', tuple(self.unary(e.op, x, st) for x in o.d), o.x))
        return self.unary(e.op, v, st)

    def unary(self, op, v, st):
        if isinstance(op, ast.USub):
            if isinstance(v, int):
                return -int(v)
            if isinstance(v, Cx):
                return Cx(N.neg(v.re), N.neg(v.im))
            if isinstance(v, Opaque) and v.t[:1] == ('float',):
                return Opaque(('float', '-' + v.t[1]))
            return Num(N.neg(self.num(v, st)), self.isint(v))
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if isinstance(v, int):
                return ~int(v)
            if isinstance(v, CondV):
                return cond(N.cnot(v.c))
            if isinstance(v, Opaque):
                return Opaque(('~', v.t))
        raise Unsupported('unary')

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        N.CURLOC[0] = (fr.file, e.lineno)
        return self.binop(e.op, a, b, st)

    def binop(self, op, a, b, st):
        if not (isinstance(a, (int, Num)) and isinstance(b, (int, Num))):
            a, b = self.norm(a, st), self.norm(b, st)
            if isinstance(a, Choice):
                raise NeedSplit(a.c)
            if isinstance(b, Choice):
                raise NeedSplit(b.c)
            r = self.seqop(op, a, b, st)
            if r is not None:
                return r
        if isinstance(a, Cx) or isinstance(b, Cx):
            return self.cxop(op, a, b, st)
        if isinstance(a, int) and isinstance(b, int):
            a, b = int(a), int(b)
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
                if b == 0:
                    raise self.err(ZeroDivisionError, 'division by zero', st)
                if isinstance(op, ast.Div):
                    return Num(N.const(Fr(a, b)), False)
                return a // b if isinstance(op, ast.FloorDiv) else a % b
            if isinstance(op, ast.Pow):
                if b >= 0:
                    if b > 200:
                        raise Unsupported('big power')
                    return a ** b
                if a == 0:
                    raise self.err(ZeroDivisionError, '0 to negative power', st)
                return Num(N.const(Fr(a) ** b), False)
            if isinstance(op, ast.BitAnd):
                return a & b
            if isinstance(op, ast.BitOr):
                return a | b
            if isinstance(op, ast.BitXor):
                return a ^ b
            if isinstance(op, ast.LShift):
                return a << b
            if isinstance(op, ast.RShift):
                return a >> b
            raise Unsupported('int op')
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and isinstance(a, (bool, CondV)) and isinstance(b, (bool, CondV)):
            x, y = self.truth(a, st), self.truth(b, st)
            return cond(N.cand(x, y) if isinstance(op, ast.BitAnd) else N.cor(x, y) if isinstance(op, ast.BitOr) else N.cite(x, N.cnot(y), y))
        # non-numbers
        for v in (a, b):
            if v is None or isinstance(v, (str, bytes, tuple)):
                raise self.err(TypeError, 'unsupported operand', st)
            if isinstance(v, Opaque) and v.t[:1] == ('float',):
                raise Unsupported('infinite/nan arithmetic')
        x, y = self.num(a, st), self.num(b, st)
        ii = self.isint(a) and self.isint(b)
        if isinstance(op, ast.Add):
            return mknum(N.add(x, y), ii)
        if isinstance(op, ast.Sub):
            return mknum(N.sub(x, y), ii)
        if isinstance(op, ast.Mult):
            return mknum(N.mul(x, y), ii)
        if isinstance(op, ast.Div):
            return Num(self.div(x, y, st), False)
        if isinstance(op, ast.FloorDiv):
            q = self.div(x, y, st)
            return mknum(N.fn('floor', q), ii)
        if isinstance(op, ast.Mod):
            q = self.div(x, y, st)
            return mknum(N.sub(x, N.mul(y, N.fn('floor', q))), ii)
        if isinstance(op, ast.Pow):
            return self.pow(a, b, x, y, ii, st)
        raise Unsupported('operator %s' % type(op).__name__)

    def div(self, x, y, st):
        y = self.simp(y, st)
        if y.op == 'c':
            if y.a == 0:
                raise self.err(ZeroDivisionError, 'division by zero', st)
        elif y.lo <= 0 <= y.hi or y.lo != y.lo:
            self.fault(st, 'ZeroDivisionError', N.eq(y, N.const(0)))
        return N.div(x, y)

    def pow(self, a, b, x, y, ii, st):
        y = self.simp(y, st)
        if y.op == 'c':
            e = y.a
            if e.denominator > 10 ** 6:
                # 0.333333... style literals stay exact rationals; keep as opaque power
                pass
            if e < 0:
                if x.op == 'c' and x.a == 0:
                    raise self.err(ZeroDivisionError, 'zero to a negative power', st)
                if x.lo <= 0 <= x.hi:
                    self.fault(st, 'ZeroDivisionError', N.eq(x, N.const(0)))
            if e.denominator != 1 and x.lo < 0:
                d = st.decide(N.lt(x, N.const(0)))
                if d is not False:
                    self.fault(st, 'complex-power', N.lt(x, N.const(0)))
            return mknum(N.power(x, e), ii and e >= 0)
        # symbolic exponent: exp(y*log x)
        if x.lo > 0:
            return Num(N.fn('exp', N.mul(y, N.fn('log', x))), False)
        raise Unsupported('symbolic exponent')

    def cx(self, v, st):
        if isinstance(v, Cx):
            return v
        return Cx(self.num(v, st), N.const(0))

    def cxop(self, op, a, b, st):
        if isinstance(op, ast.Pow):
            y = self.num(b, st) if not isinstance(b, Cx) else None
            if y is not None and y.op == 'c' and y.a.denominator == 1 and 0 <= y.a <= 8:
                r = Cx(N.const(1), N.const(0))
                for _ in range(int(y.a)):
                    r = self.cxop(ast.Mult(), r, a, st)
                return r
            if y is not None and y.op == 'c' and y.a == Fr(1, 2):
                a = self.cx(a, st)
                return Cx(N.fn('csq_re', a.re, a.im), N.fn('csq_im', a.re, a.im))
            raise Unsupported('complex power')
        a, b = self.cx(a, st), self.cx(b, st)
        if isinstance(op, ast.Add):
            return Cx(N.add(a.re, b.re), N.add(a.im, b.im))
        if isinstance(op, ast.Sub):
            return Cx(N.sub(a.re, b.re), N.sub(a.im, b.im))
        if isinstance(op, ast.Mult):
            return Cx(N.sub(N.mul(a.re, b.re), N.mul(a.im, b.im)), N.add(N.mul(a.re, b.im), N.mul(a.im, b.re)))
        if isinstance(op, ast.Div):
            d = N.add(N.power(b.re, 2), N.power(b.im, 2))
            return Cx(self.div(N.add(N.mul(a.re, b.re), N.mul(a.im, b.im)), d, st),
                      self.div(N.sub(N.mul(a.im, b.re), N.mul(a.re, b.im)), d, st))
        raise Unsupported('complex operator')

    def cxabs(self, a):
        return N.power(N.add(N.power(a.re, 2), N.power(a.im, 2)), Fr(1, 2))

    def lacks(self, pytypes, name, st):
        """the attribute is missing from the real type: an error; present but not modelled: undecided"""
        for t in pytypes:
            if hasattr(t, name):
                raise Unsupported('attribute %s of %s' % (name, t.__name__))
        raise self.err(AttributeError, name, st)

    def outside(self, v, st, what):
        """an operation that a library object may support although its model does not"""
        if isinstance(v, Ref) and (st.obj(v).kind not in ('list', 'dict', 'set', 'arr', 'inst', 'iter') or
                                   st.obj(v).kind == 'inst' and (getattr(st.obj(v).x, 'standin', False) or st.obj(v).x.kind)):
            raise Unsupported(what)

    def method(self, v, name, st):
        """the special method of an instance, if its class has one"""
        if isinstance(v, Ref) and st.obj(v).kind == 'inst':
            m = self.class_attr(st.obj(v).x, name, st)
            if m is not None:
                return Bound(m, v)
        return None

    def seqop(self, op, a, b, st):
        """sequence, string, array, opaque operators; None if plain numbers"""
        if isinstance(a, str) and isinstance(op, ast.Mod):
            return self.models.percent(self, st, a, b)
        if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, str) and isinstance(b, int) and isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Add) and (isinstance(a, Opaque) and (isinstance(b, str) or (isinstance(b, Opaque) and b.t[:1] == a.t[:1] == ('str',)))
                                        or isinstance(a, str) and isinstance(b, Opaque)):
            return self.models.sstr(self.models.parts(self, st, a) + self.models.parts(self, st, b))
        if isinstance(a, NT):
            a = a.items
        if isinstance(b, NT):
            b = b.items
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and isinstance(op, ast.Mult):
            return a * b
        oa = st.obj(a) if isinstance(a, Ref) else None
        ob = st.obj(b) if isinstance(b, Ref) else None
        if (oa is not None and oa.kind == 'inst') or (ob is not None and ob.kind == 'inst'):
            nm = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
                  ast.Pow: 'pow', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor', ast.MatMult: 'matmul'}.get(type(op))
            if nm:
                m = self.method(a, '__%s__' % nm, st)
                if m is not None:
                    return self.call(m, [b], {}, st)
                m = self.method(b, '__r%s__' % nm, st)
                if m is not None:
                    return self.call(m, [a], {}, st)
            raise Unsupported('operator on instance')
        if (oa is not None and oa.kind == 'arr') or (ob is not None and ob.kind == 'arr'):
            xa = list(oa.d) if oa is not None and oa.kind in ('arr', 'list') else (list(a) if isinstance(a, tuple) else None)
            xb = list(ob.d) if ob is not None and ob.kind in ('arr', 'list') else (list(b) if isinstance(b, tuple) else None)
            if xa is None:
                xa = [a] * len(xb)
            if xb is None:
                xb = [b] * len(xa)
            if len(xa) != len(xb):
                if len(xa) == 1:
                    xa = xa * len(xb)
                elif len(xb) == 1:
                    xb = xb * len(xa)
                else:
                    raise self.err(ValueError, 'broadcast', st)
            for x in xa + xb:
                if isinstance(x, Ref) and st.obj(x).kind == 'list':
                    raise Unsupported('nested array')
            return alloc(st, Obj('arr', tuple(self.binop(op, x, y, st) for x, y in zip(xa, xb))))
        if oa is not None and oa.kind == 'list':
            if ob is not None and ob.kind == 'list' and isinstance(op, ast.Add):
                return alloc(st, Obj('list', oa.d + ob.d))
            if isinstance(op, ast.Mult):
                k = self.conc_int(b, st)
                return alloc(st, Obj('list', oa.d * max(k, 0)))
            raise self.err(TypeError, 'list operand', st)
        if ob is not None and ob.kind == 'list' and isinstance(op, ast.Mult):
            k = self.conc_int(a, st)
            return alloc(st, Obj('list', ob.d * max(k, 0)))
        if isinstance(b, tuple) and isinstance(a, int) and isinstance(op, ast.Mult):
            return b * a
        if oa is not None and oa.kind == 'dict' and isinstance(op, ast.BitOr):
            r = alloc(st, Obj('dict', dict(oa.d)))
            self.models.dict_update(self, st, r, b)
            return r
        if oa is not None and oa.kind == 'set' and ob is not None and ob.kind == 'set':
            ka, kb = oa.d, ob.d
            for q in list(ka.values()) + list(kb.values()):
                if q[1] is not N.TRUE:
                    raise Unsupported('conditional set')
            if isinstance(op, ast.BitOr):
                return alloc(st, Obj('set', {**ka, **kb}))
            if isinstance(op, ast.BitAnd):
                return alloc(st, Obj('set', {k: v for k, v in ka.items() if k in kb}))
            if isinstance(op, ast.Sub):
                return alloc(st, Obj('set', {k: v for k, v in ka.items() if k not in kb}))
        if isinstance(a, Opaque) and isinstance(b, Opaque) and not isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow, ast.FloorDiv, ast.Mod)):
            return Opaque((type(op).__name__, a.t, b.t))
        return None

    def conc_int(self, v, st):
        v = self.force(v, st)
        if isinstance(v, int):
            return int(v)
        if isinstance(v, Num):
            n = v.n
            if n.op == 'c' and n.a.denominator == 1:
                if not v.i:
                    raise self.err(TypeError, 'integer expected', st)
                return int(n.a)
            if n.op == 'c':
                raise self.err(TypeError, 'integer expected', st)
            lo, hi = st.facts.iv(n)
            if lo == hi and (v.i or n.isint):
                return int(lo)
            c, ts = N._parts(n)
            for m, _ in ts:
                if m.op == 'ite':
                    raise NeedSplit(m.a[0])
                if m.op == 'f' and m.a[0] in ('max', 'min'):
                    raise NeedSplit(N.lt(m.a[1], m.a[2]))
            if v.i and hi - lo <= 64:
                raise NeedSplit(N.le(n, N.const(int(math.floor((lo + hi) / 2)))))
            raise Unsupported('symbolic integer used as a bound/index')
        if isinstance(v, Opaque):
            raise Unsupported('opaque integer')
        raise self.err(TypeError, 'integer expected', st)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)

        def go(i, x):
            """-> value, mutating x"""
            v = self.ev(e.values[i], x, fr)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v, x)
            d = x.decide(c)
            if d is True:
                return go(i + 1, x) if isand else v
            if d is False:
                return v if isand else go(i + 1, x)
            stay = x.assume(c, not isand)
            goon = x.assume(c, isand)
            w = go(i + 1, goon)
            vv = self.norm(v, stay)
            sel = N.cnot(c) if isand else c       # sel: result is v
            if isinstance(w, (bool, CondV)) and isinstance(vv, (bool, CondV)):
                pass
            ms, (r,) = merge_states(sel, stay, goon, [(vv, w)], x, N.TRUE)
            x.heap, x.facts, x.faults, x.log = ms.heap, ms.facts, ms.faults, ms.log
            return r
        return go(0, st)

    def e_IfExp(self, e, st, fr):
        c = self.truth(self.ev(e.test, st, fr), st)
        d = st.decide(c)
        if d is True:
            return self.ev(e.body, st, fr)
        if d is False:
            return self.ev(e.orelse, st, fr)
        a, b = st.assume(c, True), st.assume(c, False)
        va = self.ev(e.body, a, fr)
        vb = self.ev(e.orelse, b, fr)
        ms, (r,) = merge_states(c, a, b, [(va, vb)], st, N.TRUE)
        st.heap, st.facts, st.faults, st.log = ms.heap, ms.facts, ms.faults, ms.log
        return r

    def e_Compare(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        r = N.TRUE
        last = None
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x, st, fr)
            N.CURLOC[0] = (fr.file, e.lineno)
            last = self.compare(op, a, b, st)
            if len(e.ops) == 1:
                return last
            r = N.cand(r, self.truth(last, st))
            a = b
        return cond(r)

    def compare(self, op, a, b, st):
        a, b = self.norm(a, st), self.norm(b, st)
        if isinstance(op, (ast.Is, ast.IsNot)):
            for v in (a, b):
                if isinstance(v, Choice):
                    raise NeedSplit(v.c)
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                if a is None or b is None:
                    r = N.boolsym('isnone:' + repr((a if isinstance(a, Opaque) else b).t)[:200])
                else:
                    r = N.cc(same(a, b))
            elif isinstance(a, CondV) and isinstance(b, bool):
                r = a.c if b else N.cnot(a.c)
            elif isinstance(b, CondV) and isinstance(a, bool):
                r = b.c if a else N.cnot(b.c)
            else:
                r = N.cc(same(a, b))
            return cond(r if isinstance(op, ast.Is) else N.cnot(r))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, st)
            return cond(r if isinstance(op, ast.In) else N.cnot(r))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(a, Ref) and st.obj(a).kind == 'arr' or isinstance(b, Ref) and st.obj(b).kind == 'arr':
                return self.arrcmp(op, a, b, st)
            for x, y in ((a, b), (b, a)):
                m = self.method(x, '__eq__' if isinstance(op, ast.Eq) else '__ne__', st)
                if m is not None:
                    return self.call(m, [y], {}, st)
            r = self.equal(a, b, st)
            return cond(r if isinstance(op, ast.Eq) else N.cnot(r))
        for v in (a, b):
            if isinstance(v, Choice):
                raise NeedSplit(v.c)
        return self.order(op, a, b, st)

    def arrcmp(self, op, a, b, st):
        xa = list(st.obj(a).d) if isinstance(a, Ref) else None
        xb = list(st.obj(b).d) if isinstance(b, Ref) else None
        if xa is None:
            xa = [a] * len(xb)
        if xb is None:
            xb = [b] * len(xa)
        return alloc(st, Obj('arr', tuple(self.compare(op, x, y, st) for x, y in zip(xa, xb))))

    def order(self, op, a, b, st):
        if isinstance(a, (int, Num, CondV)) and isinstance(b, (int, Num, CondV)) or isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and a.t[:1] == ('float',) or isinstance(b, Opaque) and b.t[:1] == ('float',):
                return self.infcmp(op, a, b, st)
            if isinstance(a, Opaque) and isinstance(b, (int, Num)) or isinstance(b, Opaque):
                pass
            x, y = self.num(a, st), self.num(b, st)
            if isinstance(op, ast.Lt):
                return cond(N.lt(x, y))
            if isinstance(op, ast.LtE):
                return cond(N.le(x, y))
            if isinstance(op, ast.Gt):
                return cond(N.lt(y, x))
            if isinstance(op, ast.GtE):
                return cond(N.le(y, x))
        if isinstance(a, Ref) and st.obj(a).kind == 'arr' or isinstance(b, Ref) and st.obj(b).kind == 'arr':
            return self.arrcmp(op, a, b, st)
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        sa, sb = self.seq(a, st), self.seq(b, st)
        if sa is not None and sb is not None:
            strict = isinstance(op, (ast.Lt, ast.Gt))
            sop = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
            r = N.cc({ast.Lt: len(sa) < len(sb), ast.LtE: len(sa) <= len(sb), ast.Gt: len(sa) > len(sb), ast.GtE: len(sa) >= len(sb)}[type(op)])
            for x, y in reversed(list(zip(sa, sb))):
                e = self.equal(x, y, st)
                if e is N.TRUE:
                    continue
                q = self.truth(self.compare(sop, x, y, st), st)
                r = N.cite(e, r, q)
            return cond(r)
        fwd = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}[type(op)]
        back = {ast.Lt: '__gt__', ast.LtE: '__ge__', ast.Gt: '__lt__', ast.GtE: '__le__'}[type(op)]
        m = self.method(a, fwd, st)
        if m is not None:
            return self.call(m, [b], {}, st)
        m = self.method(b, back, st)
        if m is not None:
            return self.call(m, [a], {}, st)
        plain = (int, Num, CondV, str, type(None), tuple)
        if isinstance(a, plain) and isinstance(b, plain):
            raise self.err(TypeError, 'unorderable', st)
        raise Unsupported('ordering')

    def infcmp(self, op, a, b, st):
        def val(v):
            if isinstance(v, Opaque):
                return {'inf': 1, '-inf': -1, 'nan': 0}.get(v.t[1])
            return None
        x, y = val(a), val(b)
        if x is None and y is not None and y != 0:
            lessy = y > 0
            return {ast.Lt: lessy, ast.LtE: lessy, ast.Gt: not lessy, ast.GtE: not lessy}[type(op)]
        if y is None and x is not None and x != 0:
            less = x < 0
            return {ast.Lt: less, ast.LtE: less, ast.Gt: not less, ast.GtE: not less}[type(op)]
        raise Unsupported('inf/nan comparison')

    def seq(self, v, st):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, NT):
            return list(v.items)
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ('list', 'arr'):
                return list(o.d)
        return None

    def equal(self, a, b, st):
        a, b = self.norm(a, st), self.norm(b, st)
        if isinstance(a, Choice):
            return N.cite(a.c, self.equal(a.a, b, st), self.equal(a.b, b, st))
        if isinstance(b, Choice):
            return N.cite(b.c, self.equal(a, b.a, st), self.equal(a, b.b, st))
        na, nb = isinstance(a, (int, Num, CondV)), isinstance(b, (int, Num, CondV))
        if na and nb:
            if isinstance(a, (bool, CondV)) and isinstance(b, (bool, CondV)):
                x, y = self.truth(a, st), self.truth(b, st)
                return N.cite(x, y, N.cnot(y))
            return N.eq(self.num(a, st), self.num(b, st))
        if isinstance(a, Cx) or isinstance(b, Cx):
            if (na or isinstance(a, Cx)) and (nb or isinstance(b, Cx)):
                x, y = self.cx(a, st), self.cx(b, st)
                return N.cand(N.eq(x.re, y.re), N.eq(x.im, y.im))
            return N.FALSE
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if same(a, b):
                return N.TRUE
            o, p = (a, b) if isinstance(a, Opaque) else (b, a)
            if o.t[:1] == ('float',):
                if o.t[1] == 'nan':
                    return N.FALSE
                if isinstance(p, (int, Num)):
                    return N.FALSE
            if isinstance(p, (int, Num)):
                return N.eq(self.opq(o), self.num(p, st))
            if p is None:
                return N.boolsym('isnone:' + repr(o.t)[:200])
            return N.boolsym('eq:' + repr(sorted([repr(self.key(a, st)), repr(self.key(b, st))]))[:300])
        sa, sb = self.seq(a, st), self.seq(b, st)
        if sa is not None and sb is not None:
            if isinstance(a, (tuple, NT)) != isinstance(b, (tuple, NT)):
                return N.FALSE
            if len(sa) != len(sb):
                return N.FALSE
            r = N.TRUE
            for x, y in zip(sa, sb):
                r = N.cand(r, self.equal(x, y, st))
            return r
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return N.TRUE
            oa, ob = st.obj(a), st.obj(b)
            if oa.kind == 'inst' or ob.kind == 'inst':
                for x, y in ((a, b), (b, a)):
                    m = self.method(x, '__eq__', st)
                    if m is not None:
                        return self.truth(self.call(m, [y], {}, st), st)
                if oa.kind == ob.kind and oa.x is ob.x and oa.x.kind:
                    raise Unsupported('comparing records')
            if oa.kind == ob.kind and oa.kind in ('dict', 'set'):
                r = N.TRUE
                for k in set(oa.d) | set(ob.d):
                    x, y = oa.d.get(k), ob.d.get(k)
                    if x is None or y is None:
                        r = N.cand(r, N.cnot((x or y)[1]))
                        continue
                    both = N.cand(x[1], y[1])
                    neither = N.cand(N.cnot(x[1]), N.cnot(y[1]))
                    r = N.cand(r, N.cor(neither, N.cand(both, self.equal(x[0], y[0], st))))
                return r
            return N.FALSE
        return N.cc(same(a, b))

    def contains(self, box, v, st):
        box = self.force(box, st)
        if isinstance(box, str):
            v = self.force(v, st)
            return N.cc(isinstance(v, str) and v in box)
        if isinstance(box, Ref):
            o = st.obj(box)
            if o.kind in ('dict', 'set'):
                return self.dict_has(box, v, st)
            if o.kind == 'inst':
                m = self.class_attr(o.x, '__contains__', st)
                if m is not None:
                    return self.truth(self.call(Bound(m, box), [v], {}, st), st)
        if isinstance(box, Opaque):
            return N.boolsym('in:' + repr((self.key(v, st), box.t))[:300])
        r = N.FALSE
        for x in self.iterate(box, st):
            r = N.cor(r, self.equal(x, v, st))
        return r

    # -------------------------------------------------------------- dicts
    def key(self, v, st):
        """hashable key of a value"""
        v = self.norm(v, st)
        if isinstance(v, bool):
            return int(v)
        if v is None or isinstance(v, (int, str, bytes)):
            return v
        if isinstance(v, Num):
            if v.n.op == 'c':
                return int(v.n.a) if v.n.a.denominator == 1 else ('q', v.n.a)
            return ('n', v.n)
        if isinstance(v, Cx):
            return ('cx', v.re, v.im)
        if isinstance(v, tuple):
            return ('t',) + tuple(self.key(x, st) for x in v)
        if isinstance(v, NT):
            return ('t',) + tuple(self.key(x, st) for x in v.items)
        if isinstance(v, Opaque):
            return ('o', v.t)
        if isinstance(v, CondV):
            return ('c', v.c)
        if isinstance(v, Ref):
            return ('r', v.id)
        if isinstance(v, Choice):
            raise NeedSplit(v.c)
        if isinstance(v, type):
            return ('ty', v.__name__)
        return ('x', id(v))

    def _symkey(self, k):
        if isinstance(k, tuple):
            if k and k[0] in ('n', 'cx', 'c', 'o'):
                return True
            if k and k[0] == 't':
                return any(self._symkey(x) for x in k[1:])
        return False

    def hashcheck(self, v, st):
        if isinstance(v, Ref) and st.obj(v).kind in ('list', 'dict', 'set', 'arr'):
            raise self.err(TypeError, 'unhashable', st)
        if isinstance(v, tuple):
            for x in v:
                self.hashcheck(x, st)

    def dict_find(self, ref, kv, st):
        """-> key present in dict that kv denotes, or None (splits when undecided)"""
        self.hashcheck(kv, st)
        k = self.key(kv, st)
        o = st.obj(ref)
        if k in o.d:
            return k
        sk = self._symkey(k)
        for q, (v, p, orig) in o.d.items():
            if sk or self._symkey(q):
                e = self.equal(orig, kv, st)
                d = st.decide(e)
                if d is True:
                    return q
                if d is None:
                    raise NeedSplit(e)
        return None

    def dict_has(self, ref, kv, st):
        k = self.dict_find(ref, kv, st)
        if k is None:
            return N.FALSE
        return st.obj(ref).d[k][1]

    def dict_get(self, ref, kv, st):
        """-> value or raises KeyError / splits"""
        k = self.dict_find(ref, kv, st)
        if k is None:
            o = st.obj(ref)
            if o.x == 'counter':
                return 0
            if isinstance(o.x, tuple) and o.x[0] == 'default':
                v = self.call(o.x[1], [], {}, st)
                self.dict_set(ref, kv, v, st)
                return v
            raise self.err(KeyError, repr(self.key(kv, st)), st)
        v, p, _ = st.obj(ref).d[k]
        if p is not N.TRUE:
            d = st.decide(p)
            if d is None:
                raise NeedSplit(p)
            if d is False:
                raise self.err(KeyError, repr(k), st)
        return self.norm(v, st)

    def dict_set(self, ref, kv, v, st):
        k = self.dict_find(ref, kv, st)
        o = st.obj(ref)
        d = dict(o.d)
        if k is None:
            k = self.key(kv, st)
            d[k] = (v, N.TRUE, kv)
        else:
            if d[k][1] is N.FALSE:
                del d[k]
            d[k] = (v, N.TRUE, d[k][2] if k in d else kv)
        st.heap[ref.id] = Obj(o.kind, d, o.x)

    def dict_del(self, ref, kv, st):
        self.dict_get(ref, kv, st)
        k = self.dict_find(ref, kv, st)
        o = st.obj(ref)
        d = dict(o.d)
        del d[k]
        st.heap[ref.id] = Obj(o.kind, d, o.x)

    def dict_items(self, ref, st):
        o = st.obj(ref)
        out = []
        for k, (v, p, orig) in o.d.items():
            dd = st.decide(p)
            if dd is None:
                raise NeedSplit(p)
            if dd:
                out.append((orig, v))
        return out

    # -------------------------------------------------------------- subscripts
    def e_Slice(self, e, st, fr):
        f = lambda x: None if x is None else self.ev(x, st, fr)
        return Slice(f(e.lower), f(e.upper), f(e.step))

    def ev_slice(self, e, st, fr):
        return self.ev(e, st, fr)

    def e_Subscript(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        i = self.ev_slice(e.slice, st, fr)
        N.CURLOC[0] = (fr.file, e.lineno)
        return self.getitem(b, i, st)

    def getitem(self, b, i, st):
        b = self.norm(b, st)
        if isinstance(b, Choice):
            raise NeedSplit(b.c)
        if isinstance(b, Ref):
            o = st.obj(b)
            if o.kind == 'dict':
                return self.dict_get(b, i, st)
            if o.kind in ('list', 'arr'):
                if isinstance(i, Slice):
                    return alloc(st, Obj(o.kind, o.d[self.slice(i, len(o.d), st)]))
                if o.kind == 'arr':
                    i2 = self.norm(i, st)
                    if isinstance(i2, Ref):
                        return self.arrmask(o, i2, st)
                return self.index(o.d, i, st)
            if o.kind == 'inst':
                m = self.class_attr(o.x, '__getitem__', st)
                if m is not None:
                    return self.call(Bound(m, b), [i], {}, st)
            self.outside(b, st, 'subscript')
            raise self.err(TypeError, 'not subscriptable', st)
        if isinstance(b, (tuple, NT)):
            items = b if isinstance(b, tuple) else b.items
            if isinstance(i, Slice):
                return items[self.slice(i, len(items), st)]
            return self.index(items, i, st)
        if isinstance(b, str):
            if isinstance(i, Slice):
                return b[self.slice(i, len(b), st)]
            k = self.conc_int(i, st)
            if not -len(b) <= k < len(b):
                raise self.err(IndexError, 'string index', st)
            return b[k]
        if isinstance(b, Opaque):
            if isinstance(i, Slice):
                return Opaque(('slice', b.t, repr(i.a), repr(i.b), repr(i.c)))
            return Opaque(('idx', b.t, self.key(i, st)))
        if isinstance(b, Obj) and b.kind == 'range':
            return self.index(tuple(self.iterate(b, st)), i, st)
        if isinstance(b, (Builtin, type, ClassV)):
            return b         # typing generics
        raise self.err(TypeError, 'not subscriptable', st)

    def arrmask(self, o, iref, st):
        m = st.obj(iref)
        out = []
        if m.d and isinstance(m.d[0], (bool, CondV)):
            for x, c in zip(o.d, m.d):
                c = self.truth(c, st)
                d = st.decide(c)
                if d is None:
                    raise NeedSplit(c)
                if d:
                    out.append(x)
        else:
            for k in m.d:
                out.append(self.index(o.d, k, st))
        return alloc(st, Obj('arr', tuple(out)))

    def slice(self, s, n, st):
        f = lambda x: None if x is None else self.conc_int(x, st)
        return slice(f(s.a), f(s.b), f(s.c))

    def index(self, items, i, st):
        i = self.force(i, st)
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int):
            if not -len(items) <= i < len(items):
                raise self.err(IndexError, 'index %d of %d' % (i, len(items)), st)
            return self.norm(items[i], st)
        if isinstance(i, CondV):
            i = Num(N.ite(i.c, N.const(1), N.const(0)), True)
        if isinstance(i, Num):
            if not i.i:
                raise self.err(TypeError, 'list indices must be integers', st)
            try:
                return self.sel(items, i.n, st.facts, st)
            except NeedSplitOOB:
                raise self.err(IndexError, 'index out of range', st)
        if isinstance(i, Opaque):
            raise Unsupported('opaque index')
        raise self.err(TypeError, 'bad index', st)

    def sel(self, items, n, facts, st, depth=0):
        if n.op == 'c':
            k = int(n.a)
            if not -len(items) <= k < len(items):
                raise NeedSplitOOB()
            return items[k]
        c, ts = N._parts(n)
        if len(ts) == 1 and ts[0][0].op == 'ite' and depth < 30:
            m, k = ts[0]
            cc_ = m.a[0]
            d = facts.decide(cc_)
            x = N.add(N.scale(m.a[1], k), N.const(c))
            y = N.add(N.scale(m.a[2], k), N.const(c))
            if d is True:
                return self.sel(items, x, facts, st, depth + 1)
            if d is False:
                return self.sel(items, y, facts, st, depth + 1)
            try:
                a = self.sel(items, x, facts.assume(cc_, True), st, depth + 1)
                b = self.sel(items, y, facts.assume(cc_, False), st, depth + 1)
            except NeedSplitOOB:
                raise NeedSplit(cc_)
            return merge_val(cc_, a, b)
        lo, hi = facts.iv(n)
        if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo > 128:
            raise Unsupported('symbolic index with unbounded range')
        lo, hi = int(lo), int(hi)
        inr = [k for k in range(lo, hi + 1) if -len(items) <= k < len(items)]
        if len(inr) < hi - lo + 1:
            bad = N.cor(N.lt(n, N.const(-len(items))), N.le(N.const(len(items)), n))
            d = facts.decide(bad)
            if d is None:
                raise NeedSplit(bad)
            if d is True:
                if facts is st.facts:
                    raise self.err(IndexError, 'index out of range', st)
                raise NeedSplitOOB()
        if not inr:
            raise self.err(IndexError, 'index out of range', st)
        v = items[inr[-1]]
        for k in reversed(inr[:-1]):
            v = merge_val(N.eq(n, N.const(k)), items[k], v)
        return v

    def setitem(self, b, i, v, st):
        b = self.force(b, st)
        if isinstance(b, Ref):
            o = st.obj(b)
            if o.kind == 'dict':
                return self.dict_set(b, i, v, st)
            if o.kind in ('list', 'arr'):
                if isinstance(i, Slice):
                    L = list(o.d)
                    L[self.slice(i, len(L), st)] = self.iterate(v, st) if not isinstance(v, (int, Num)) else [v] * len(L[self.slice(i, len(L), st)])
                    st.heap[b.id] = Obj(o.kind, tuple(L), o.x)
                    return
                i = self.force(i, st)
                if isinstance(i, Num) and i.i and i.n.op != 'c':
                    lo, hi = st.facts.iv(i.n)
                    if math.isfinite(lo) and math.isfinite(hi) and 0 <= lo and hi < len(o.d):
                        L = list(o.d)
                        for k in range(int(lo), int(hi) + 1):
                            L[k] = merge_val(N.eq(i.n, N.const(k)), v, L[k])
                        st.heap[b.id] = Obj(o.kind, tuple(L), o.x)
                        return
                k = self.conc_int(i, st)
                if not -len(o.d) <= k < len(o.d):
                    raise self.err(IndexError, 'assignment index', st)
                k %= len(o.d)
                st.heap[b.id] = Obj(o.kind, o.d[:k] + (v,) + o.d[k + 1:], o.x)
                return
            if o.kind == 'inst':
                m = self.class_attr(o.x, '__setitem__', st)
                if m is not None:
                    self.call(Bound(m, b), [i, v], {}, st)
                    return
        if isinstance(b, Opaque):
            st.log = st.log + (('setitem', b.t, self.deepkey(i, st), self.deepkey(v, st), st.path, N.CURLOC[0]),)
            return
        self.outside(b, st, 'item assignment')
        raise self.err(TypeError, 'item assignment', st)

    def delitem(self, b, i, st):
        if isinstance(b, Ref):
            o = st.obj(b)
            if o.kind == 'dict':
                return self.dict_del(b, i, st)
            if o.kind == 'list':
                L = list(o.d)
                if isinstance(i, Slice):
                    del L[self.slice(i, len(L), st)]
                else:
                    k = self.conc_int(i, st)
                    if not -len(L) <= k < len(L):
                        raise self.err(IndexError, '', st)
                    del L[k]
                st.heap[b.id] = Obj('list', tuple(L), o.x)
                return
        raise Unsupported('del item')

    # -------------------------------------------------------------- attributes
    def e_Attribute(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        N.CURLOC[0] = (fr.file, e.lineno)
        return self.getattr(b, e.attr, st)

    def class_attr(self, c, name, st):
        d = st.obj(c.ns).d
        if name in d:
            return d[name]
        for b in c.bases:
            r = self.class_attr(b, name, st)
            if r is not None:
                return r
        return None

    def getattr(self, b, name, st):
        b = self.norm(b, st)
        if isinstance(b, Choice):
            raise NeedSplit(b.c)
        if isinstance(b, Mod):
            if b.ref is not None:
                o = st.obj(b.ref)
                if name in o.d:
                    return self.norm(o.d[name], st)
                if self.find_module(b.name + '.' + name):
                    return self.import_module(b.name + '.' + name, st)
                if STANDINS in str(o.d.get('__file__')):
                    return Opaque(('mod', b.name, name))
                raise self.err(AttributeError, name, st)
            return self.models.module_attr(self, b.name, name)
        if isinstance(b, Ref):
            o = st.obj(b)
            if o.kind == 'inst':
                if name in o.d:
                    v = self.norm(o.d[name], st)
                    if v is UNDEF:
                        raise self.err(AttributeError, name, st)
                    if isinstance(v, Choice) and (v.a is UNDEF or v.b is UNDEF):
                        raise NeedSplit(v.c)
                    return v
                if name == '__class__':
                    return o.x
                if name == '__dict__':
                    return alloc(st, Obj('dict', {k: (v, N.TRUE, k) for k, v in o.d.items()}))
                a = self.class_attr(o.x, name, st)
                if a is None:
                    m = self.models.dataclass_method(self, o.x, name)
                    if m is not None:
                        return Bound(m, b)
                    if getattr(o.x, 'standin', False):
                        raise Unsupported('attribute %s of external %s' % (name, o.x.name))
                    raise self.err(AttributeError, name, st)
                if isinstance(a, Func):
                    return Bound(a, b)
                if isinstance(a, Wrapped):
                    if a.kind == 'property':
                        return self.call(a.f, [b], {}, st)
                    if a.kind == 'static':
                        return a.f
                    if a.kind == 'classm':
                        return Bound(a.f, o.x)
                    return Bound(a, b)
                return a
            m = self.models.method(self, b, o, name, st)
            if m is not None:
                return m
            if o.kind not in ('list', 'dict', 'set'):
                raise Unsupported('attribute %s of %s' % (name, o.kind))
            self.lacks([{'list': list, 'dict': dict, 'set': set}[o.kind]], name, st)
        if isinstance(b, (Num, int, CondV)):
            if name == 'real':
                return b if not isinstance(b, bool) else int(b)
            if name == 'imag':
                return 0
            m = self.models.num_method(self, b, name, st)
            if m is not None:
                return m
            self.lacks([int, float, np.float64, np.int64], name, st)
        if isinstance(b, Cx):
            if name == 'real':
                return Num(b.re)
            if name == 'imag':
                return Num(b.im)
            if name in ('conjugate', 'conj'):
                return Builtin('conj', lambda I, s, a, k: Cx(b.re, N.neg(b.im)))
            self.lacks([complex, np.complex128], name, st)
        if isinstance(b, NT):
            for i, (f, _) in enumerate(b.cls.fields):
                if f == name:
                    return b.items[i]
            m = self.models.nt_method(self, b, name)
            if m is not None:
                return m
            a = self.class_attr(b.cls, name, st) if b.cls.ns is not None else None
            if isinstance(a, Func):
                return Bound(a, b)
            if isinstance(a, Wrapped) and a.kind == 'property':
                return self.call(a.f, [b], {}, st)
            if a is not None:
                return a
            raise self.err(AttributeError, name, st)
        if isinstance(b, ClassV):
            if name == '__name__':
                return b.name
            a = self.class_attr(b, name, st) if b.ns is not None else None
            if isinstance(a, Wrapped) and a.kind == 'static':
                return a.f
            if isinstance(a, Wrapped) and a.kind == 'classm':
                return Bound(a.f, b)
            if a is not None:
                if b.kind == 'enum' and not isinstance(a, Func):
                    return a if not isinstance(a, (int, Num, str)) else Opaque(('enum', b.name, name))
                return a
            if name == '_fields' and b.kind == 'nt':
                return tuple(f for f, _ in b.fields)
            if name == '_make' and b.kind == 'nt':
                return Builtin('_make', lambda I, s, a, k: NT(b, I.iterate(a[0], s)))
            if getattr(b, 'standin', False):
                raise Unsupported('attribute %s of external %s' % (name, b.name))
            raise self.err(AttributeError, name, st)
        if isinstance(b, (str, bytes)):
            return self.models.str_method(self, b, name, st)
        if isinstance(b, tuple):
            if name in ('index', 'count'):
                return self.models.tuple_method(self, b, name)
            self.lacks([tuple], name, st)
        if isinstance(b, Opaque):
            if b.t[:1] == ('enum',) and name == 'value':
                pass
            return Opaque(('attr', b.t, name))
        if isinstance(b, Exc):
            if name == 'args':
                return tuple(b.args)
            return Opaque(('excattr', name))
        if isinstance(b, Builtin):
            r = self.models.builtin_attr(self, b, name)
            if r is not None:
                return r
            return Opaque(('attr', b.name, name))
        if isinstance(b, (Func, Wrapped, Bound, Part)):
            if name == '__name__':
                return getattr(b, 'name', 'f')
            if name == '__doc__':
                return ''
            if isinstance(b, Func):
                h = st.heap.get(-id(b))
            return self.models.func_attr(self, b, name, st)
        if isinstance(b, type):
            if name == '__name__':
                return b.__name__
        if isinstance(b, Obj) and b.kind == 'super':
            for base in b.d.bases:
                a = self.class_attr(base, name, st)
                if a is not None:
                    return Bound(a, b.x) if isinstance(a, Func) else a
            return Builtin('super.' + name, lambda I, s, a, k: None)
        if b is None:
            self.lacks([type(None)], name, st)
        raise Unsupported('attribute ' + name)

    def setattr(self, b, name, v, st):
        b = self.force(b, st)
        if isinstance(b, Ref):
            o = st.obj(b)
            if o.kind == 'inst':
                d = dict(o.d)
                d[name] = v
                st.heap[b.id] = Obj('inst', d, o.x)
                return
        if isinstance(b, Mod) and b.ref is not None:
            o = st.obj(b.ref)
            d = dict(o.d)
            d[name] = v
            st.heap[b.ref.id] = Obj('ns', d)
            return
        if isinstance(b, ClassV):
            o = st.obj(b.ns)
            d = dict(o.d)
            d[name] = v
            st.heap[b.ns.id] = Obj('ns', d)
            return
        if isinstance(b, Func):
            self.models.func_setattr(self, b, name, v, st)
            return
        if isinstance(b, Opaque):
            st.log = st.log + (('setattr', b.t, name, self.deepkey(v, st), st.path, N.CURLOC[0]),)
            return
        raise self.err(AttributeError, name, st)

    # -------------------------------------------------------------- comprehensions, lambda
    def e_Lambda(self, e, st, fr):
        return self.mkfunc(e, st, fr)

    def _comp(self, e, st, fr, emit):
        ns = alloc(st, Obj('ns', {}))
        inf = FInfo()
        inf.locals, inf.globals, inf.nonlocals = set(), set(), set()
        inf.isgen = inf.hasinner = False
        scope = ((fr.ns,) + fr.scope) if fr.info != 'class' else fr.scope
        if fr.info is None:
            scope = ()
        cf = Frame(ns, scope, inf, fr.modns, fr.file, fr.mod, fr.func)
        for g in e.generators:
            _targets(g.target, inf.locals)

        def go(i):
            if i == len(e.generators):
                emit(cf)
                return
            g = e.generators[i]
            it = self.ev(g.iter, st, cf if i else fr)
            for v in self.iterate(it, st):
                self.tick()
                self.assign(g.target, v, st, cf)
                ok = True
                for c in g.ifs:
                    q = self.truth(self.ev(c, st, cf), st)
                    d = st.decide(q)
                    if d is None:
                        raise NeedSplit(q)
                    if not d:
                        ok = False
                        break
                if ok:
                    go(i + 1)
        go(0)

    def e_ListComp(self, e, st, fr):
        out = []
        self._comp(e, st, fr, lambda cf: out.append(self.ev(e.elt, st, cf)))
        return alloc(st, Obj('list', tuple(out)))

    def e_GeneratorExp(self, e, st, fr):
        out = []
        self._comp(e, st, fr, lambda cf: out.append(self.ev(e.elt, st, cf)))
        return alloc(st, Obj('iter', tuple(out), 0))

    def e_SetComp(self, e, st, fr):
        out = []
        self._comp(e, st, fr, lambda cf: out.append(self.ev(e.elt, st, cf)))
        return self.mkset(out, st)

    def e_DictComp(self, e, st, fr):
        r = alloc(st, Obj('dict', {}))

        def emit(cf):
            k = self.ev(e.key, st, cf)
            self.dict_set(r, k, self.ev(e.value, st, cf), st)
        self._comp(e, st, fr, emit)
        return r

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else None
        o = st.obj(fr.yields)
        st.heap[fr.yields.id] = Obj('list', o.d + (v,), o.x)
        return None

    def e_YieldFrom(self, e, st, fr):
        for v in self.iterate(self.ev(e.value, st, fr), st):
            o = st.obj(fr.yields)
            st.heap[fr.yields.id] = Obj('list', o.d + (v,), o.x)
        return None

    def e_Await(self, e, st, fr):
        raise Unsupported('await')

    # -------------------------------------------------------------- iteration
    def iterate(self, v, st):
        v = self.force(v, st)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, NT):
            return list(v.items)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Obj) and v.kind == 'range':
            return list(v.d)
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ('list', 'arr'):
                return list(o.d)
            if o.kind == 'iter':
                st.heap[v.id] = Obj('iter', o.d, len(o.d))
                return list(o.d[o.x:])
            if o.kind in ('dict', 'set'):
                return [k for k, _ in self.dict_items(v, st)]
            if o.kind == 'inst':
                m = self.class_attr(o.x, '__iter__', st)
                if m is not None:
                    return self.iterate(self.call(Bound(m, v), [], {}, st), st)
                if self.class_attr(o.x, '__getitem__', st) is not None and self.class_attr(o.x, '__len__', st) is not None:
                    n = self.conc_int(self.call(Bound(self.class_attr(o.x, '__len__', st), v), [], {}, st), st)
                    return [self.getitem(v, i, st) for i in range(n)]
        if isinstance(v, Opaque):
            raise Unsupported('iteration over external value %r' % (v.t,))
        self.outside(v, st, 'iteration')
        raise self.err(TypeError, 'not iterable', st)

    # -------------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            slf = st.obj(fr.ns).d.get(fr.func.node.args.args[0].arg) if fr.func and fr.func.node.args.args else None
            if isinstance(slf, Ref) and st.obj(slf).kind == 'inst':
                cls = fr.func.cls or st.obj(slf).x
                return Obj('super', cls, slf)
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals', 'vars') and not e.args:
            ns = fr.modns if e.func.id == 'globals' else fr.ns
            return alloc(st, Obj('dict', {k: (v, N.TRUE, k) for k, v in st.obj(ns).d.items()}))
        f = self.ev(e.func, st, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, st, fr), st))
            else:
                args.append(self.ev(a, st, fr))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                v = self.force(v, st)
                if isinstance(v, Ref):
                    for q, x in self.dict_items(v, st):
                        kw[q] = x
                else:
                    raise Unsupported('** of external value')
            else:
                kw[k.arg] = v
        N.CURLOC[0] = (fr.file, e.lineno)
        self.calls_seen += 1
        return self.call(f, args, kw, st)

    def call(self, f, args, kw, st):
        f = self.force(f, st)
        if isinstance(f, Func):
            return self.call_func(f, args, kw, st)
        if isinstance(f, Builtin):
            return f.fn(self, st, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.f, Func):
                return self.call_func(f.f, [f.self] + args, kw, st)
            return self.call(f.f, [f.self] + args, kw, st)
        if isinstance(f, Part):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.f, list(f.args) + args, k, st)
        if isinstance(f, Wrapped):
            return self.models.call_wrapped(self, f, args, kw, st)
        if isinstance(f, ClassV):
            return self.models.instantiate(self, f, args, kw, st)
        if isinstance(f, type) and issubclass(f, BaseException):
            return Exc(f, tuple(args), N.CURLOC[0])
        if isinstance(f, Ref):
            o = st.obj(f)
            if o.kind == 'inst':
                m = self.class_attr(o.x, '__call__', st)
                if m is not None:
                    return self.call(Bound(m, f), args, kw, st)
        if isinstance(f, Opaque):
            return self.extern(f, args, kw, st)
        self.outside(f, st, 'call')
        raise self.err(TypeError, 'not callable', st)

    def extern(self, f, args, kw, st):
        """call of something outside the analysed source"""
        ks = tuple(self.deepkey(a, st) for a in args)
        kws = tuple(sorted((k, self.deepkey(v, st)) for k, v in kw.items()))
        self.extern_calls.add(repr(f.t)[:120])
        dn = self.models.dotted(f.t)
        if self.standins and dn.split('.')[0] in STANDIN_MODS:
            raise Unsupported('external %s' % dn)
        h = self.models.EXTERN.get(dn)
        if self.listening is not None and dn.split('.')[0] in ('logging', 'sys', 'os', 'pprint', 'warnings') and h is None:
            raise Unsupported('output by %s' % dn)
        if h is not None:
            return h(self, st, f, args, kw)
        t = ('call', f.t, ks, kws)
        if nondet(dn):
            # the clock, randomness, the environment, files: a new, arbitrary value at every call
            NONCE[0] += 1
            t = ('nd', NONCE[0], f.t, ks, kws)
        st.log = st.log + (('call', f.t, ks, kws, st.path, N.CURLOC[0]),)
        return Opaque(t)

    def deepkey(self, v, st, depth=0):
        """structural, hashable picture of a value (for external calls)"""
        v = self.norm(v, st)
        if depth > 12:
            return '..'
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.kind == 'choice':
                return ('choice', v.id)
            if o.kind in ('list', 'arr'):
                return (o.kind,) + tuple(self.deepkey(x, st, depth + 1) for x in o.d)
            if o.kind == 'iter':
                return ('list',) + tuple(self.deepkey(x, st, depth + 1) for x in o.d[o.x:])
            if o.kind in ('dict', 'set'):
                return (o.kind,) + tuple((k, self.deepkey(x[0], st, depth + 1), x[1]) for k, x in o.d.items())
            if o.kind == 'inst':
                return ('inst', o.x.name) + tuple((k, self.deepkey(x, st, depth + 1)) for k, x in o.d.items())
            return (o.kind, v.id)
        if isinstance(v, tuple):
            return ('t',) + tuple(self.deepkey(x, st, depth + 1) for x in v)
        if isinstance(v, NT):
            return ('t',) + tuple(self.deepkey(x, st, depth + 1) for x in v.items)
        if isinstance(v, Choice):
            return ('ch', v.c, self.deepkey(v.a, st, depth + 1), self.deepkey(v.b, st, depth + 1))
        if isinstance(v, Obj) and v.kind == 'range':
            return ('range', tuple(v.d))
        if isinstance(v, Func):
            return ('func', v.mod, v.name)
        if isinstance(v, Bound):
            return ('bound', self.deepkey(v.f, st, depth + 1), self.deepkey(v.self, st, depth + 1))
        if isinstance(v, Builtin):
            return ('builtin', v.name)
        if isinstance(v, Num):
            if v.n.op == 'c':
                return int(v.n.a) if v.n.a.denominator == 1 else ('q', v.n.a)
            return ('n', v.n)
        try:
            return self.key(v, st)
        except NeedSplit:
            return ('?',)

    def bind(self, f, args, kw, st):
        if STANDINS in str(f.file):
            try:
                return self.bind_(f, args, kw, st)
            except InterpRaise:
                raise Unsupported('arguments of external %s' % f.name)
        return self.bind_(f, args, kw, st)

    def bind_(self, f, args, kw, st):
        a = f.node.args
        pos = a.posonlyargs + a.args
        d = {}
        if len(args) > len(pos) and not a.vararg:
            raise self.err(TypeError, 'too many arguments for %s' % f.name, st)
        for p, v in zip(pos, args):
            d[p.arg] = v
        if a.vararg:
            d[a.vararg.arg] = tuple(args[len(pos):])
        kw = dict(kw)
        names = {p.arg for p in pos} | {p.arg for p in a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in names:
                if k in d:
                    raise self.err(TypeError, 'multiple values for %s' % k, st)
                d[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            d[a.kwarg.arg] = alloc(st, Obj('dict', {k: (v, N.TRUE, k) for k, v in extra.items()}))
        elif extra:
            raise self.err(TypeError, 'unexpected argument %s' % list(extra)[0], st)
        for p, v in zip(pos[len(pos) - len(f.defaults):], f.defaults):
            d.setdefault(p.arg, v)
        for p, v in zip(a.kwonlyargs, f.kwdefaults):
            if v is not UNDEF:
                d.setdefault(p.arg, v)
        for p in pos + a.kwonlyargs:
            if p.arg not in d:
                raise self.err(TypeError, 'missing argument %s' % p.arg, st)
        return d

    def call_func(self, f, args, kw, st):
        h = self.summaries.get((f.mod, f.name))
        if h is not None:
            r = h(self, st, f, args, kw)
            if r is not NotImplemented:
                return r
        self.funcs_seen.add((f.file, f.name))
        if self.depth > 60:
            raise Unsupported('call depth')
        d = self.bind(f, args, kw, st)
        entry = st.copy()
        ns = alloc(entry, Obj('ns', d))
        fr = Frame(ns, f.scope, f.info, f.modns, f.file, f.mod, f)
        if f.isgen:
            fr.yields = alloc(entry, Obj('list', ()))
        self.depth += 1
        loc = N.CURLOC[0]
        td = self.trydepth
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, entry, fr)
                outs = {'return': (N.TRUE, v, entry)}
            else:
                outs = self.exec_block(f.node.body, entry, fr)
        finally:
            self.depth -= 1
            self.trydepth = td
        N.CURLOC[0] = loc
        if 'normal' in outs:
            c, _, s = outs.pop('normal')
            if 'return' in outs:
                rc, rv, rs = outs['return']
                tot = N.cor(rc, c)
                ms, (mv,) = merge_states(rc, rs, s, [(rv, None)], entry, tot)
                outs['return'] = (tot, mv, ms)
            else:
                outs['return'] = (c, None, s)
        if 'raise' in outs:
            rc, exc, rs = outs['raise']
            rc = st.facts.restrict(rc)
            if rc is N.TRUE or 'return' not in outs:
                raise InterpRaise(exc, rs)
            if rc is not N.FALSE:
                raise NeedSplit(rc)
        c, v, s = outs['return']
        if not f.info.hasinner and not f.isgen:
            s.heap.pop(ns.id, None)
        # path: keep caller's view
        st.heap, st.faults, st.log = s.heap, s.faults, s.log
        if f.isgen:
            o = st.obj(fr.yields)
            return alloc(st, Obj('iter', o.d, 0))
        return self.norm(v, st)


class NeedSplitOOB(Exception):
    pass
