"""sessions: one function under contract = one session of obligations"""
import multiprocessing as mp
import os
import sys
import time
import traceback
import z3
from . import core, rt
from .core import CTX, Unsupported, EngineError
from .values import install_axioms
from .loader import World


class Session:
    """what a prove function gets: loads code, states obligations"""

    def __init__(self, name, budget):
        self.name = name
        self.funcs = []
        self.notes = []
        self.paths_ok = 0
        self.paths_exc = 0
        self.w = None
        self.budget = budget

    def world(self, ext=None):
        self.w = World(ext)
        return self.w

    def fn(self, mod, attr):
        """the /repo function, transformed from its current source"""
        m = self.w.load(mod)
        o = m
        for a in attr.split('.'):
            o = getattr(o, a)
        self.funcs.append('%s.%s' % (mod, attr))
        return o

    def explore(self, run, exc=(), label=None):
        """
        run() along all paths. Exceptions must be of the types in exc (then they are
        returned to the caller's check through run itself) or they are violations.
        """
        res = CTX.explore(run)
        for pc, kind, v in res:
            if kind == 'ok':
                self.paths_ok += 1
            else:
                self.paths_exc += 1
                if exc and isinstance(v, tuple(exc)):
                    continue
                tb = traceback.extract_tb(v.__traceback__)
                loc = ['%s:%s' % (os.path.basename(f.filename), f.lineno)
                       for f in tb if '/repo/' in f.filename or '/verif/' in f.filename]
                CTX.fail('%s: no exception on an admissible input' % (label or self.name),
                         '%s: %s at %s' % (type(v).__name__, v, loc[-4:]))
        return res

    def require_reach(self):
        if self.paths_ok + self.paths_exc == 0:
            CTX.fail('%s: contract is reachable (vacuity)' % self.name,
                     'no feasible path: precondition unsatisfiable')


def _child(name, fn, budget, q, again=0):
    sys.setrecursionlimit(20000)
    t0 = time.time()
    core.FOLDS  # keep
    CTX.reset()
    install_axioms()
    if again:
        core.effort(1 + 2*again, 17*again)
    CTX.deadline = t0 + budget
    s = Session(name, budget)
    err = None
    try:
        fn(s)
        s.require_reach()
    except EngineError as e:
        err = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    except RecursionError:
        err = 'recursion limit'
    except Exception as e:      # a change in the code's shape the contract meets
        err = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    obl = {}
    for o in CTX.obls:
        k = o.name
        d = dict(name=o.name, status=o.status, backend=o.backend, wall=o.wall,
                 detail=str(o.detail) if o.detail is not None else None, count=1,
                 model=model_text(o.model))
        if k in obl:
            p = obl[k]
            p['count'] += 1
            p['wall'] += o.wall
            if p['status'] == 'discharged' and o.status != 'discharged':
                d['count'] = p['count']
                d['wall'] = p['wall']
                obl[k] = d
            elif o.backend not in p['backend'].split(','):
                p['backend'] += ',' + o.backend
        else:
            obl[k] = d
    q.put(dict(session=name, error=err, obligations=list(obl.values()),
               funcs=s.funcs, entered=sorted(CTX.functions), files=sorted(set(s.w.loaded_files)) if s.w else [],
               solver_time=CTX.solver_time, queries=CTX.nqueries,
               paths=CTX.npaths, paths_ok=s.paths_ok, wall=time.time() - t0,
               assumptions=sorted(CTX.assumptions), notes=s.notes))


def model_text(m):
    if m is None:
        return None
    try:
        out = []
        for d in m.decls()[:40]:
            t = str(m[d]).replace('\n', ' ')
            out.append('%s = %s' % (d.name(), t[:200]))
        return out
    except Exception:
        return None


def run_sessions(items, budget, jobs=6, again=0):
    """items: [(name, fn)]; each in its own process"""
    ctx = mp.get_context('fork')
    pend = list(items)
    live = []
    out = []
    end = time.time() + budget*1.4
    per = {}
    while pend or live:
        while pend and len(live) < jobs:
            name, fn = pend.pop(0)
            q = ctx.SimpleQueue()
            # all sessions together keep within 1.4 budgets
            per[name] = max(20, min(budget, end - time.time()))
            p = ctx.Process(target=_child, args=(name, fn, per[name], q, again))
            p.start()
            live.append((name, p, q, time.time()))
        time.sleep(0.02)
        for it in list(live):
            name, p, q, t0 = it
            if not q.empty():
                out.append(q.get())
                p.join(5)
                if p.is_alive():
                    p.kill()
                live.remove(it)
            elif not p.is_alive():
                if not q.empty():
                    out.append(q.get())
                else:
                    out.append(dict(session=name, error='prover process died',
                                    obligations=[], funcs=[], files=[], solver_time=0,
                                    queries=0, paths=0, paths_ok=0, wall=time.time()-t0,
                                    assumptions=[], notes=[]))
                live.remove(it)
            elif time.time() - t0 > per[name] + 30:
                p.kill()
                p.join()
                out.append(dict(session=name, error='time limit', obligations=[],
                                funcs=[], files=[], solver_time=0, queries=0, paths=0,
                                paths_ok=0, wall=time.time()-t0, assumptions=[],
                                notes=[]))
                live.remove(it)
    order = {n: i for i, (n, _) in enumerate(items)}
    out.sort(key=lambda r: order[r['session']])
    return out
