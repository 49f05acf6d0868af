"""Run scenarios: interpret both sides, discharge obligations, search for refuting boxes."""
import re
import math
import os
import sys
import time
import itertools
from . import nodes as N
from . import boxes as BX
from .values import Num, Cx, InterpRaise, NeedSplit
from .run import run
from .scen import Side, Var, Search, obligations, sameleaf, flatten, divergence, Ob, pathcond

sys.setrecursionlimit(200000)
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATHS = [os.path.join(REPO, 'src'), os.path.join(REPO, 'scripts'), os.path.join(VERIF, 'spec')]


class Scen:
    def __init__(self, name, src, vars_, disc=None, a='impl', r='ref', summaries=None, keyerr='violation', valid=None,
                 tol=(1e-7, 1e-7), budget=None, paths=None, pre=None, time_limit=60, max_steps=400000, faults=True,
                 boxmode=True, ordered_keys=False, skip_none=True, narrow=None, limit=600000, sweep=True, weight=0,
                 fallback=None, native=None, boxlim=40, always=False, refute=False, exact=None):
        self.__dict__.update(locals())
        del self.__dict__['self']


class Out:
    def __init__(self):
        self.viol = []
        self.proved = 0
        self.undecided = []
        self.obligations = 0
        self.boxes = 0
        self.functions = set()
        self.stmts = set()
        self.calls = 0
        self.notes = []
        self.scen = 0
        self.sites = set()
        self.graph = 0
        self.hints = []

    def add(self, o):
        self.viol += o.viol
        self.proved += o.proved
        self.undecided += o.undecided
        self.obligations += o.obligations
        self.boxes += o.boxes
        self.functions |= o.functions
        self.stmts |= o.stmts
        self.calls += o.calls
        self.notes += o.notes
        self.scen += o.scen
        self.sites |= o.sites
        self.graph += o.graph


def interp(sc, fname, vals):
    N.CURLOC[0] = None
    r = run(sc.paths or PATHS, sc.src, fname, vals, sc.max_steps, sc.time_limit, sc.summaries, pre=sc.pre)
    return Side(r)


def coverage(out, s):
    I = s.res.I
    out.functions |= {f for f in I.funcs_seen if '/verif/' not in str(f) and '<driver>' not in str(f)}
    out.calls += I.calls_seen
    out.stmts |= {x for x in I.stmts_seen if x[0] != '<driver>' and '/verif/' not in x[0]}


def args_for(sc, case):
    vals = []
    for v in sc.vars_:
        if v.name in case:
            vals.append(case[v.name])
        else:
            vals.append(v.node())
    return vals


def cases_of(sc):
    if not sc.disc:
        return [{}]
    if isinstance(sc.disc, list):
        return sc.disc
    keys = list(sc.disc)
    return [dict(zip(keys, c)) for c in itertools.product(*[sc.disc[k] for k in keys])]


def conc(v):
    """discrete python value -> abstract value"""
    if isinstance(v, float):
        return Num(N.const(v), False)
    if isinstance(v, (list, tuple)):
        return tuple(conc(x) for x in v)
    return v


def decide_case(sc, case, tier, seed):
    out = Out()
    out.scen = 1
    N.reset(sc.limit)
    vals, vars_ = [], []
    names = [v.name for v in sc.vars_]
    for k in case:
        if k not in names:
            vals.append(conc(case[k]))
    for v in sc.vars_:
        if v.name in case:
            vals.append(conc(case[v.name]))
        else:
            vals.append(v.node())
            vars_.append(v)
    label = sc.name + (str(case) if case else '')
    try:
        A = interp(sc, sc.a, vals)
        R = interp(sc, sc.r, vals)
    except (N.Unsupported, NeedSplit, RecursionError) as e:
        out.notes.append('%s: graph not built (%s)' % (label, str(e)[:200]))
        if sc.fallback:
            fb = sc.fallback()
            boxmode(fb, case, None, [v for v in fb.vars_ if v.name not in case], label, out, tier, seed)
        elif sc.boxmode:
            boxmode(sc, case, vals, vars_, label, out, tier, seed)
        else:
            out.undecided.append((label, 'unsupported: %s' % e))
            out.obligations += 1
        return out
    except InterpRaise as e:
        # raised while importing: definite
        out.obligations += 1
        out.viol.append({'scenario': label, 'what': 'import raises %r at %s' % (getattr(e.exc, 'cls', e.exc), getattr(e.exc, 'loc', None)), 'box': {}})
        return out
    coverage(out, A)
    compare(sc, A, R, vars_, label, out, tier, seed)
    out.graph = N.T.next
    if (out.undecided or sc.always) and sc.fallback and not out.viol:
        out.notes.append('%s: not discharged with summaries; interpreting in full' % label)
        fb = sc.fallback()
        o2 = Out()
        boxmode(fb, case, None, [v for v in fb.vars_ if v.name not in case], label, o2, tier, seed, out.hints)
        out.viol += o2.viol
        out.boxes += o2.boxes
        out.notes += o2.notes
        out.functions |= o2.functions
        out.stmts |= o2.stmts
        out.calls += o2.calls
    return out


def compare(sc, A, R, vars_, label, out, tier, seed):
    prove = sc.faults == 'prove'
    obs = obligations(A, R, sc.skip_none, sc.ordered_keys) if not prove else []
    out.obligations += len(obs) + 1
    if R.raise_ is N.TRUE:
        out.notes.append('%s: reference side raises %s' % (label, R.excname()[:200]))
        if A.raise_ is not N.TRUE:
            out.undecided.append((label, 'the reference side raises: ' + R.excname()[:200]))
    open_ = []
    for o in obs:
        if o.kind == 'eq' and sameleaf(o.a, o.b):
            out.proved += 1
        else:
            open_.append(o)
    if open_ and sc.sweep:
        open_ = do_sweep(sc, open_, vars_, out, seed, label)
    raises = A.raise_ is not N.FALSE
    faults = [f for f in A.faults if f[0] != 'note'] if sc.faults else []
    if raises:
        if A.raise_ is R.raise_:
            raises = False
    if not raises:
        out.proved += 1
    if prove:
        sites = {x for x in A.res.I.fault_sites if x[1] and x[1][0] != '<driver>' and '/verif/' not in x[1][0]}
        left = faults_left([f for f in faults if f[0] != 'complex-power'], R, sc, vars_, out, seed, label)
        out.obligations += len(sites)
        out.proved += len(sites - left)
        for x in sorted(left, key=str):
            out.undecided.append((label, 'not excluded: %s at %s' % x))
    if not open_ and not raises and not faults:
        return
    if (sc.summaries or sc.fallback) and not sc.refute:
        # summaries stand for any value: a box that refutes does so whatever they return
        if open_:
            s = Search(vars_, open_, A, R, valid=sc.valid(vals_map(vars_)) if sc.valid else None, seed=seed, tol=sc.tol,
                       budget={'n': 1024, 'atoms': 24, 'conds': 8, 'secs': 20}, keyerr=sc.keyerr, fault_check=False)
            s.tried = []
            hit = s.run()
            out.boxes += s.boxes
            if hit:
                hit['scenario'] = label
                out.viol.append(hit)
                return
            if sc.fallback:
                try:
                    out.hints = s.suspects(24, 10)
                except (ArithmeticError, ValueError) as e:
                    out.notes.append('%s: no suspects (%s)' % (label, e))
        for o in open_:
            out.undecided.append((label, '.'.join(map(str, o.label)), [list(x) for x in divergence(o.a, o.b)][:4]))
        if raises:
            out.undecided.append((label, 'may raise ' + A.excname()[:200]))
        return
    b = dict(sc.budget or {})
    if tier == 'thorough':
        b['n'] = b.get('n', 4096) * 6
        b['secs'] = b.get('secs', 100) * 4
        b['pairs'] = 64
        b['atoms'] = 400
        b['conds'] = 200
    if prove:
        q = tier == 'quick'
        b = {'n': 1024 if q else 8192, 'atoms': 12 if q else 120, 'conds': 0, 'fa': 10 if q else 100, 'climb': 80 if q else 200}
    if not open_ and not raises and not prove:
        # values proved identical: faults only need the reference not to share them
        b['n'] = min(b.get('n', 4096), 2048)
        b['atoms'] = 0
        if not sc.faults or {(f[0], f[1]) for f in faults} <= {(f[0], f[1]) for f in R.faults}:
            return
    s = Search(vars_, open_, A, R, valid=sc.valid(vals_map(vars_)) if sc.valid else None, seed=seed, tol=sc.tol, budget=b,
               keyerr=sc.keyerr, fault_check=sc.faults, defs=prove)
    if prove:
        s.fa.sort(key=lambda x: (x[1][0], x[1][3]) not in left)
    hit = s.run()
    out.boxes += s.boxes
    if hit:
        hit['scenario'] = label
        out.viol.append(hit)
    else:
        for o in open_:
            out.undecided.append((label, '.'.join(map(str, o.label)), [list(x) for x in divergence(o.a, o.b)][:4]))
        if raises:
            out.undecided.append((label, 'may raise %s under %s' % (A.excname()[:300], N.showc(A.raise_, 3)[:200])))


def do_sweep(sc, open_, vars_, out, seed, label):
    import numpy as np
    from . import sweep as SW
    from .scen import Pt
    num = [o for o in open_ if isinstance(o.a, N.Node) and isinstance(o.b, N.Node)]
    if not num:
        return open_
    n = 96
    rs = np.random.default_rng(seed + 7)
    cols = {v.name: v.sample(rs, n) for v in vars_}
    try:
        val = {}
        m, stat = SW.sweep([o.a for o in num], [o.b for o in num], cols, n, Pt, val=val)
    except (N.Unsupported, RecursionError) as e:
        out.notes.append('%s: sweep stopped (%s)' % (label, e))
        return open_
    out.notes.append('%s: sweep %s' % (label, stat))
    rest = []
    pr = SW.Prover(2000)
    from . import ranges
    for o in open_:
        if o in num:
            a, b = m[o.a.id], m[o.b.id]
            if a is b:
                out.proved += 1
                continue
            if o.cond is N.TRUE:
                # values that differ at sample points: no proof to look for
                with np.errstate(all='ignore'):
                    x, y = val[o.a.id], val[o.b.id]
                    if (np.abs(x - y) > 1e-3 * (1 + np.abs(x) + np.abs(y)))[np.isfinite(x) & np.isfinite(y)].any():
                        rest.append(o)
                        continue
            f = SW.Facts()
            if o.cond is not N.TRUE:
                f = f.assume(o.cond, True)
                r = SW.rebuild([a, b], None, f)
                a, b = r[a.id], r[b.id]
            if pr.equal(a, b, f, splits=40):
                out.proved += 1
                continue
            if o.cond is N.TRUE and b.op == 'c' and o.a.cl and ranges.holds(a, b, vars_):
                out.proved += 1
                continue
        rest.append(o)
    return rest


def faults_left(faults, R, sc, vars_, out, seed, label):
    """fault sites not excluded: neither impossible nor shared with the reference formulas"""
    one, zero = N.const(1), N.const(0)

    def run_(fs, rconds):
        left = []
        for f, c, k in fs:
            r = N.FALSE
            for rk, rc in rconds:
                if rk is k or N.cand(c, rc) is c:
                    r = N.cor(r, rc)
            if c is not N.FALSE and N.cand(c, N.cnot(r)) is not N.FALSE:
                left.append((f, c, k))
        return left
    fs = [(f, N.cand(f[1], pathcond(f[2])), f[1]) for f in faults]
    rs_ = [(f[1], N.cand(f[1], pathcond(f[2]))) for f in R.faults]
    left = run_(fs, rs_)
    if left and sc.sweep and not sc.summaries:
        import numpy as np
        from . import sweep as SW
        from .scen import Pt
        n = 96
        rg = np.random.default_rng(seed + 7)
        cols = {v.name: v.sample(rg, n) for v in vars_}
        A = [N.ite(c, one, zero) for f, c, k in left]
        B = [N.ite(c, one, zero) for k, c in rs_]
        try:
            m, stat = SW.sweep(A, B, cols, n, Pt, tlimit=8.0)
            out.notes.append('%s: fault sweep %s' % (label, stat))

            def cond(x):
                x = m[x.id]
                return N.TRUE if x is one else N.FALSE if x is zero else N.eq(x, one)
            left = run_([(l[0], cond(a), None) for l, a in zip(left, A)], [(False, cond(b)) for b in B])
        except (N.Unsupported, RecursionError) as e:
            out.notes.append('%s: fault sweep stopped (%s)' % (label, e))
    return {(f[0], f[3]) for f, c, k in left}


def vals_map(vars_):
    return {v.name: N.sym(v.name) for v in vars_}


def terrain(rs, m):
    """elevations of one of several landforms"""
    import numpy as np
    t = np.linspace(0, 1, m)
    h = math.exp(rs.uniform(0, math.log(900)))
    k = rs.integers(0, 6)
    if k == 0:
        z = h * (2 * t - 1) ** 2
    elif k == 1:
        z = h * (1 - (2 * t - 1) ** 2)
    elif k == 2:
        z = h * t
    elif k == 3:
        z = h * (1 - np.abs(t - rs.uniform(.1, .9)))
    elif k == 4:
        z = h * (t > rs.uniform(.1, .9))
    else:
        z = 0 * t
    if rs.random() < 0.5:
        z = z[::-1]
    if rs.random() < 0.3:
        z = z * 0.2
    return [float(x) for x in z + rs.uniform(0, 300) + rs.uniform(0, h * rs.choice([0.01, 0.05, 0.3]), m)]


def points(sc, case, vars_, rs, count):
    """sampled input points; with a native reference, spread over the sets of reference statements they reach"""
    import numpy as np

    def draw():
        pt = {}
        wide = rs.random() < 0.15
        for v in vars_:
            x = float(v.sample(rs, 1, wide and rs.random() < 0.5)[0])
            ex = False
            if v.specials and rs.random() < 0.12:
                x = float(rs.choice(np.array(v.specials, float)))
                ex = True
            pt[v.name] = (int(x) if v.isint else x, ex)
        for g in zs:
            if len(g) > 2 and rs.random() < 0.7:
                for v, x in zip(g, terrain(rs, len(g))):
                    pt[v.name] = (min(max(x, v.lo), v.hi), False)
            if g and rs.random() < 0.15:
                a, b = min(pt[v.name][0] for v in g), max(pt[v.name][0] for v in g)
                sh = (g[0].lo - a) + rs.random() * ((g[0].hi - b) - (g[0].lo - a)) * rs.choice([1.0, 0.1])
                for v in g:
                    pt[v.name] = (min(max(pt[v.name][0] + sh, v.lo), v.hi), False)
        for g in alike:
            if rs.random() < 0.06:
                for v in g:
                    pt[v.name] = (pt[g[0].name][0], True)
        return pt
    alike = {}
    for v in vars_:
        if not v.isint:
            alike.setdefault((re.sub(r'\d+$', '', v.name), v.lo, v.hi), []).append(v)
    alike = [g for g in alike.values() if len(g) > 1]
    zs = [[v for v in vars_ if re.match(c + r'\d+$', v.name)] for c in 'zy']
    if sc.native is None:
        return [draw() for _ in range(count)]
    groups = {}
    t0 = time.time()
    spec = os.path.join(VERIF, 'spec')
    k = 0
    while k < 40 * count and time.time() - t0 < 6:
        k += 1
        pt = draw()
        seen = set()

        def tr(fr, ev, arg):
            if not fr.f_code.co_filename.startswith(spec):
                return None

            def ln(fr, ev, arg):
                if ev == 'line':
                    seen.add(fr.f_lineno)
                return ln
            return ln
        old = sys.gettrace()
        sys.settrace(tr)
        try:
            key = sc.native({a: b[0] for a, b in pt.items()}, case)
        except Exception:
            seen = None
        finally:
            sys.settrace(old)
        if seen is None:
            continue
        g = groups.setdefault(frozenset(seen) if key is None else key, [])
        if len(g) < count:
            g.append(pt)
    out = []
    lists = sorted(groups.values(), key=len)
    i = 0
    while len(out) < count and lists:
        nxt = []
        for g in lists:
            if i < len(g):
                out.append(g[i])
                nxt.append(g)
        lists = nxt
        i += 1
    return out[:count] if out else [draw() for _ in range(count)]


def mingle(a, b):
    """first two of a, then one of each in turn"""
    a, b = list(a), list(b)
    yield from a[:2]
    a = a[2:]
    while a or b:
        if b:
            yield b.pop(0)
        if a:
            yield a.pop(0)


def boxmode(sc, case, vals, vars_, label, out, tier, seed, hints=()):
    """graph over the whole domain not available: interpret over many small boxes"""
    import numpy as np
    from .scen import Found
    rs = np.random.default_rng(seed)
    nb = (sc.budget or {}).get('boxmode', 24) * (6 if tier == 'thorough' else 1)
    t0 = time.time()
    lim = sc.boxlim if tier != 'thorough' else sc.boxlim * 5
    done = 0
    fails = 0
    names = {v.name for v in vars_}
    hints = [h for h in hints if names <= set(h)]
    for pt in mingle(hints, points(sc, case, vars_, rs, nb)):
        if time.time() - t0 > lim:
            break
        N.reset(sc.limit)
        bv = []
        for v in vars_:
            x, ex = pt[v.name]
            if v.isint:
                nv = Var(v.name, x, x, isint=True)
            elif ex or (sc.exact and re.match(sc.exact, v.name)):
                if sc.exact:
                    x = float('%.6g' % x)
                nv = Var(v.name, x, x, log=False)
            else:
                d = abs(x) * 1e-12
                nv = Var(v.name, max(v.lo, x - d), min(v.hi, x + d), log=False)
            bv.append(nv)
        vals = []
        names = [v.name for v in sc.vars_]
        for c in case:
            if c not in names:
                vals.append(conc(case[c]))
        it = iter(bv)
        for v in sc.vars_:
            if v.name in case:
                vals.append(conc(case[v.name]))
            else:
                nv = next(it)
                vals.append(int(nv.lo) if nv.isint else conc(float(nv.lo)) if nv.lo == nv.hi else nv.node())
        try:
            A = interp(sc, sc.a, vals)
            R = interp(sc, sc.r, vals)
        except (N.Unsupported, NeedSplit, RecursionError) as e:
            fails += 1
            out.notes.append('%s: box not interpreted (%s)' % (label, str(e)[:160]))
            if fails > 4 and fails > done:
                break
            continue
        done += 1
        coverage(out, A)
        obs = obligations(A, R, sc.skip_none, sc.ordered_keys) if sc.faults != 'prove' else []
        open_ = [o for o in obs if not (o.kind == 'eq' and sameleaf(o.a, o.b))]
        bvr = [v for v in bv if not v.isint and v.lo != v.hi]
        s = Search(bvr, open_, A, R, seed=seed, tol=sc.tol, keyerr=sc.keyerr, fault_check=sc.faults, defs=sc.faults == 'prove')
        cols = {}
        for v in bvr:
            cols[v.name] = np.array([0.5 * (v.lo + v.hi)])
            cols[('x', v.name)] = np.array([False])
        for x in s.extsyms:
            cols[x] = np.array([1.0])
        try:
            s.check(cols, 1, 1e-12)
        except Found:
            h = s.hit
            h['scenario'] = label + ' (box)'
            h['box'] = {k: v[0] for k, v in pt.items()}
            out.viol.append(h)
            out.obligations += 1
            out.boxes += done
            return
    out.boxes += done
    out.obligations += 1
    out.undecided.append((label, 'whole-domain graph not built; %d boxes interpreted, none refutes' % done))


def decide(sc, tier='quick', seed=1):
    tot = Out()
    for case in cases_of(sc):
        tot.add(decide_case(sc, case, tier, seed))
        if tot.viol:
            break
    return tot
