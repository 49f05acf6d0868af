"""Interpret a driver (text given here, never part of the analysed code) against the source tree."""
import ast
import time
from . import nodes as N
from .interp import Interp, Frame
from .values import Num, Cx, Ref, Choice, CondV, NT, Obj, State, alloc, InterpRaise, NeedSplit, UNDEF, Exc


class Result:
    """outs: {'return': (cond, value, state), 'raise': (cond, exc, state)}"""

    def __init__(self, I, outs):
        self.I, self.outs = I, outs

    @property
    def ret(self):
        return self.outs.get('return')

    @property
    def exc(self):
        return self.outs.get('raise')


def run(paths, src, fname, args, max_steps=400000, time_limit=120, summaries=None, sources=None, dom=None, pre=None):
    """interpret driver text `src`, then its function `fname` on abstract arguments.

    args: list of callables (I, st) -> value, or plain values"""
    I = Interp(paths, max_steps, time_limit, summaries, sources)
    if dom:
        I.opaque_dom = dom
    st = I.new_state()
    I.sources['drv'] = (src, '<driver>')
    if pre:
        pre(I, st)
    m = I.import_module('drv', st)
    f = st.obj(m.ref).d[fname]
    vals = [a(I, st) if callable(a) and not isinstance(a, (Num, Cx)) else a for a in args]
    d = I.bind(f, vals, {}, st)
    ns = alloc(st, Obj('ns', d))
    fr = Frame(ns, f.scope, f.info, f.modns, f.file, f.mod, f)
    outs = I.exec_block(f.node.body, st, fr)
    if 'normal' in outs:
        c, _, s = outs.pop('normal')
        outs['return'] = (c, None, s) if 'return' not in outs else outs['return']
    return Result(I, outs)
