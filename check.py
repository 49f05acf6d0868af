#!/usr/bin/env python3-vt
"""Decide one property by static analysis of the source tree: check.py C04 [--tier quick|thorough].

exit 0: nothing refutes the property; exit 1: a VIOLATION line names the refuting construct."""
import argparse
import json
import multiprocessing as mp
import os
import queue
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(200000)

import numpy as _np                  # noqa: E402
_np.seterr(all='ignore')
from checks import registry          # noqa: E402
from engine import decide as D       # noqa: E402


def work(scens, jobs, res, tier, seed):
    import threading
    threading.stack_size(512 * 1024 * 1024)

    def loop():
        _np.seterr(all='ignore')
        while True:
            try:
                j = jobs.get(timeout=1)
            except queue.Empty:
                return
            if j is None:
                return
            si, case = j
            sc = scens[si]
            t = time.time()
            try:
                o = sc.run(case, tier, seed) if hasattr(sc, 'run') else D.decide_case(sc, case, tier, seed)
                r = {k: (sorted(map(str, v)) if isinstance(v, set) else v) for k, v in o.__dict__.items()}
            except BaseException:
                r = {'error': traceback.format_exc()[-1500:]}
            res.put((si, repr(case), time.time() - t, json.loads(json.dumps(r, default=str))))
    th = threading.Thread(target=loop)
    th.start()
    th.join()
    res.close()
    res.join_thread()
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    if '--selftest' in sys.argv:
        print('engine loaded, %d properties' % len(registry.PROPS))
        return
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--only', default=None)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    limit = 420 if a.tier == 'quick' else 780
    prop = registry.PROPS[a.id]
    scens = [s for s in prop.scenarios(a.tier) if not a.only or a.only in s.name]
    ctx = mp.get_context('fork')
    jobs, res = ctx.Queue(), ctx.Queue()
    todo = []
    for i, sc in enumerate(scens):
        for case in D.cases_of(sc):
            todo.append((i, case))
    todo.sort(key=lambda j: -getattr(scens[j[0]], 'weight', 0) if hasattr(scens[j[0]], 'weight') else 0)
    for j in todo:
        jobs.put(j)
    n = max(1, min(a.jobs, len(todo)))
    ps = [ctx.Process(target=work, args=(scens, jobs, res, a.tier, seed), daemon=True) for _ in range(n)]
    for p in ps:
        p.start()
    got = []
    stop = None
    while len(got) < len(todo):
        try:
            r = res.get(timeout=0.5)
            got.append(r)
            if a.v:
                print('%-40s %-40s %.1fs %s' % (scens[r[0]].name, r[1][:60], r[2], {k: v for k, v in r[3].items() if k in ('proved', 'obligations', 'boxes', 'error')}))
                for u in r[3].get('undecided', [])[:6]:
                    print('     undecided', str(u)[:400])
                for u in r[3].get('notes', [])[:3]:
                    print('     note', str(u)[:300])
            if r[3].get('viol'):
                stop = 'violation'
                break
        except queue.Empty:
            if time.time() - t0 > limit:
                stop = 'time limit'
                break
            if not any(p.is_alive() for p in ps) and res.empty():
                stop = 'workers ended'
                break
    for p in ps:
        p.kill()
    viol, und, notes = [], [], []
    tot = {'obligations': 0, 'proved': 0, 'boxes': 0, 'calls': 0, 'graph': 0}
    funcs, stmts = set(), set()
    per = {}
    for si, case, t, r in got:
        sc = scens[si]
        d = per.setdefault(sc.name, {'cases': 0, 'obligations': 0, 'discharged': 0, 'boxes': 0, 's': 0.0})
        d['cases'] += 1
        d['s'] = round(d['s'] + t, 2)
        if 'error' in r:
            und.append('%s %s: internal: %s' % (sc.name, case, r['error'][-300:]))
            d['obligations'] += 1
            tot['obligations'] += 1
            if a.v:
                print(r['error'])
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        d['obligations'] += r['obligations']
        d['discharged'] += r['proved']
        d['boxes'] += r['boxes']
        funcs |= set(r['functions'])
        stmts |= set(r['stmts'])
        viol += r['viol']
        und += [str(u)[:300] for u in r['undecided']]
        notes += [str(u)[:200] for u in r['notes']]
    for j in todo[len(got):]:
        pass
    missing = len(todo) - len(got)
    ev = {'property': a.id, 'tier': a.tier, 'seed': seed, 'level': prop.level,
          'coverage': {
              'explanation': prop.explanation,
              'rule': prop.rule,
              'obligations': tot['obligations'], 'discharged': tot['proved'],
              'undecided': len(und), 'undecided_list': und[:60],
              'scenarios': per, 'cases': len(todo), 'cases_not_reached': missing,
              'functions_analysed': sorted(funcs), 'statements_interpreted': len(stmts),
              'call_sites_followed': tot['calls'], 'value_graph_nodes': tot['graph'],
              'boxes_interval_checked': tot['boxes'],
              'programs': tot['obligations'], 'disagreements_checked': tot['obligations'] - tot['proved'],
              'samples': [{'scenario': s.name, 'driver': s.src} for s in scens[:1]],
              'notes': notes[:40],
              'checker_cmd': 'python3-vt check.py %s --tier %s' % (a.id, a.tier),
              'trusted_base': ['Python ast parser', 'engine/*.py (abstract interpreter, value-graph normaliser, interval arithmetic)', 'spec/itm_ref.py (reference formulas)'],
              'exhaustive': False,
          },
          'assumptions': prop.assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rc = 0
    if viol:
        rp = os.path.join(HERE, 'evidence', 'replay_%s.json' % a.id)
        json.dump({'property': a.id, 'violations': viol,
                   'how': 'python3-vt check.py %s --tier %s --only <scenario>' % (a.id, a.tier),
                   'drivers': {s.name: s.src for s in scens if any(str(v['scenario']).startswith(s.name) for v in viol)}},
                  open(rp, 'w'), indent=1, default=str)
        for v in viol[:3]:
            print('%s: %s' % (v['scenario'], v['what']), 'at output', v.get('label'), 'intervals', v.get('intervals'), v.get('structure') or '')
            for l in (v.get('locs') or [])[:6]:
                print('   differing construct: %s' % (l,))
            print('   inputs: %s' % (v.get('box'),))
        print('VIOLATION property=%s replay=%s' % (a.id, rp))
        rc = 1
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.id + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d/%d obligations discharged, %d undecided, %d boxes, %d functions, %.1fs%s' % (
        a.id, a.tier, tot['proved'], tot['obligations'], len(und) + missing, tot['boxes'], len(funcs), time.time() - t0,
        '' if not stop else ' (%s)' % stop))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
