"""Uninterpreted summaries of the terrain routines (their own meaning is C07/C08): used for proofs only."""
from engine import nodes as N
from engine.values import Num, Obj, alloc, Ref
from engine.scen import flatten


def _nodes(I, st, v):
    """flattened argument as a tuple of nodes; None when not plain numbers"""
    out = []
    for path, alts in sorted(flatten(v, st).items(), key=lambda p: repr(p[0])):
        if path and path[-1] in ('keys',):
            continue
        if len(alts) == 1 and alts[0][0] is N.TRUE:
            x = alts[0][1]
        else:
            x = None
            for c, y in reversed(alts):
                if not isinstance(y, N.Node):
                    return None
                x = y if x is None else N.ite(c, y, x)
        if not isinstance(x, N.Node):
            return None
        out.append(x)
    return out


def _bind(I, st, f, args, kw, names):
    d = I.bind(f, args, kw, st)
    params = [a.arg for a in f.node.args.args]
    if len(params) != len(names):
        return None
    out = []
    for p in params:
        v = _nodes(I, st, d[p])
        if v is None:
            return None
        out.append(v)
    return out


def hzns(I, st, f, args, kw):
    b = _bind(I, st, f, args, kw, 'pdhg')
    if b is None:
        return NotImplemented
    flat = [x for v in b for x in v]
    # flatten sorts '#' last or first consistently: spacing is entry 1 of the profile
    d = I.bind(f, args, kw, st)
    params = [a.arg for a in f.node.args.args]
    dist = b[1][0]
    xi = pfl_item(I, st, d[params[0]], 1)
    the = {}
    dl = {}
    for k in (0, 1):
        the[k] = (Num(N.fn('uf_hzns_the', *flat, extra=k)), N.TRUE, k)
        u = N.fn('uf_hzns_dl', *flat, extra=k)
        dl[k] = (Num(N.fn('min', N.fn('max', u, xi), dist)), N.TRUE, k)
    return (alloc(st, Obj('dict', the)), alloc(st, Obj('dict', dl)))


def pfl_item(I, st, v, i):
    return I.num(st.heap[v.id].d[i], st)


def zlsq1(I, st, f, args, kw):
    b = _bind(I, st, f, args, kw, 'zab')
    if b is None:
        return NotImplemented
    flat = [x for v in b for x in v]
    return (Num(N.fn('uf_zlsq1', *flat, extra=0)), Num(N.fn('uf_zlsq1', *flat, extra=1)))


def dlthx(I, st, f, args, kw):
    b = _bind(I, st, f, args, kw, 'pab')
    if b is None:
        return NotImplemented
    flat = [x for v in b for x in v]
    return Num(N.fn('max', N.const(0), N.fn('uf_dlthx', *flat, extra=0)))


KEYS = ('wn', 'gme', 'ens', 'zgnd', 'hg', 'he', 'dl', 'the', 'dh', 'mdp', 'dist', 'kwx')


def lrprop(I, st, f, args, kw):
    """reference attenuation and warning level as uninterpreted functions of the fields the routine reads"""
    d = I.bind(f, args, kw, st)
    params = [a.arg for a in f.node.args.args]
    if len(params) != 2:
        return NotImplemented
    rec = d[params[1]]
    if not isinstance(rec, Ref) or st.heap[rec.id].kind != 'dict':
        return NotImplemented
    flat = []
    o = st.heap[rec.id]
    for k in KEYS:
        e = o.d.get(k)
        if e is None or e[1] is not N.TRUE:
            return NotImplemented
        v = e[0]
        if k in ('hg', 'he', 'dl', 'the'):
            x = [I.num(I.getitem(v, j, st), st) for j in (0, 1)]
        else:
            x = _nodes(I, st, v)
        if x is None:
            return NotImplemented
        flat += x
    nd = dict(o.d)
    nd['aref'] = (Num(N.fn('max', N.const(0), N.fn('uf_lrprop', *flat, extra='aref'))), N.TRUE, 'aref')
    nd['kwx'] = (Num(N.fn('uf_lrprop', *flat, extra='kwx')), N.TRUE, 'kwx')
    st.heap[rec.id] = Obj('dict', nd)
    return rec


P = 'itmlogic.preparatory_subroutines.'
UF = {(P + 'hzns', 'hzns'): hzns, (P + 'zlsq1', 'zlsq1'): zlsq1, (P + 'dlthx', 'dlthx'): dlthx}
UFL = dict(UF)
UFL[('itmlogic.lrprop', 'lrprop')] = lrprop


def lrprop_run(I, st, f, args, kw):
    """the same with the fields the runners look at afterwards"""
    r = lrprop(I, st, f, args, kw)
    if r is NotImplemented:
        return r
    d = dict(st.heap[r.id].d)
    key = d['kwx'][0].n.a[1:-1]
    for k in ('dlsa', 'dla', 'tha', 'dx'):
        d[k] = (Num(N.fn('uf_lrprop', *key, extra=k)), N.TRUE, k)
    dist = I.num(d['dist'][0], st)
    d['dx'] = (d['dx'][0], N.le(d['dlsa'][0].n, dist), 'dx')      # set only beyond the smooth-earth horizon distance
    st.heap[r.id] = Obj('dict', d)
    return r


UFRUN = dict(UFL)
UFRUN[('itmlogic.lrprop', 'lrprop')] = lrprop_run


AREAKEYS = ('wn', 'gme', 'ens', 'zgnd', 'hg', 'he', 'dl', 'the', 'dh')


def lrprop_area(I, st, f, args, kw):
    """area mode: a function of the set-up fields and the distance alone (C11), for a record set up by this sweep"""
    d = I.bind(f, args, kw, st)
    params = [a.arg for a in f.node.args.args]
    if len(params) != 2:
        return NotImplemented
    rec = d[params[1]]
    if not isinstance(rec, Ref) or st.heap[rec.id].kind != 'dict':
        return NotImplemented
    o = st.heap[rec.id]
    flat = []
    for k in AREAKEYS + ('mdp', 'kwx'):
        e = o.d.get(k)
        if e is None or e[1] is not N.TRUE:
            return NotImplemented
        if k in ('mdp', 'kwx'):
            continue
        v = e[0]
        x = [I.num(I.getitem(v, j, st), st) for j in (0, 1)] if k in ('hg', 'he', 'dl', 'the') else _nodes(I, st, v)
        if x is None:
            return NotImplemented
        flat += x
    mdp = I.num(o.d['mdp'][0], st)
    if mdp.op != 'c':
        return NotImplemented
    dist = I.num(d[params[0]], st)
    ids = tuple(x.id for x in flat)
    if mdp.a == 0:
        e = o.d.get('\0setup')
        if e is None or e[0] != ids:
            return NotImplemented
    elif mdp.a < 0:
        return NotImplemented
    nd = dict(o.d)
    flat.append(dist)
    nd['\0setup'] = (ids, N.TRUE, '\0setup')
    nd['mdp'] = (Num(N.const(0), True), N.TRUE, 'mdp')
    nd['dist'] = (d[params[0]], N.TRUE, 'dist')
    nd['aref'] = (Num(N.fn('max', N.const(0), N.fn('uf_lrprop', *flat, extra='aref'))), N.TRUE, 'aref')
    nd['kwx'] = (Num(N.fn('uf_lrprop', *flat, I.num(o.d['kwx'][0], st), extra='kwx')), N.TRUE, 'kwx')
    st.heap[rec.id] = Obj('dict', nd)
    return rec


UFAREA = {('itmlogic.lrprop', 'lrprop'): lrprop_area}


# ---- summaries over elevations relative to the first one (C28): what C28's own component obligations justify
def _rel(I, st, f, args, kw, n):
    d = I.bind(f, args, kw, st)
    params = [a.arg for a in f.node.args.args]
    if len(params) != n:
        return None
    p = d[params[0]]
    if not isinstance(p, Ref) or st.heap[p.id].kind not in ('list', 'arr'):
        return None
    items = [I.num(x, st) for x in st.heap[p.id].d]
    if len(items) < 4:
        return None
    rel = items[:2] + [N.sub(x, items[2]) for x in items[2:]]
    for q in params[1:]:
        v = _nodes(I, st, d[q])
        if v is None:
            return None
        rel += v
    return items, rel, d, params


def rhzns(I, st, f, args, kw):
    b = _rel(I, st, f, args, kw, 4)
    if b is None:
        return NotImplemented
    items, rel, d, params = b
    dist = I.num(d[params[1]], st)
    the, dl = {}, {}
    for k in (0, 1):
        the[k] = (Num(N.fn('uf_hzns_the', *rel, extra=k)), N.TRUE, k)
        dl[k] = (Num(N.fn('min', N.fn('max', N.fn('uf_hzns_dl', *rel, extra=k), items[1]), dist)), N.TRUE, k)
    return (alloc(st, Obj('dict', the)), alloc(st, Obj('dict', dl)))


def rzlsq1(I, st, f, args, kw):
    b = _rel(I, st, f, args, kw, 3)
    if b is None:
        return NotImplemented
    items, rel, d, params = b
    return tuple(Num(N.add(items[2], N.fn('uf_zlsq1', *rel, extra=k))) for k in (0, 1))


def rdlthx(I, st, f, args, kw):
    b = _rel(I, st, f, args, kw, 3)
    if b is None:
        return NotImplemented
    return Num(N.fn('max', N.const(0), N.fn('uf_dlthx', *b[1], extra=0)))


UFR = {(P + 'hzns', 'hzns'): rhzns, (P + 'zlsq1', 'zlsq1'): rzlsq1, (P + 'dlthx', 'dlthx'): rdlthx, ('itmlogic.lrprop', 'lrprop'): lrprop}
