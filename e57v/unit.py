"""A unit is one contract (or a small group) discharged by the verifier; units of a property run in forked workers."""
import json
import os
import select
import signal
import time
import traceback
from .ir import Unsupported
from .sym import Engine, Limit
from . import intx, models


class Vacuous(Exception):
    pass


class Unit:
    def __init__(self, name, fn, budget=120, thorough=False, statement='', bounded=False, to_case=None, arg=None):
        self.name, self.fn, self.budget, self.thorough = name, fn, budget, thorough
        self.statement, self.bounded, self.to_case, self.arg = statement or (fn.__doc__ or '').strip(), bounded, to_case, arg


class Ctx:
    def __init__(self, mod, unit, tier, seed):
        self.mod, self.unit, self.tier, self.seed = mod, unit, tier, seed
        self.engines = []
        self.notes = []

    def engine(self, safety=('bounds', 'null'), **kw):
        e = Engine(self.mod)
        models.install(e)
        e.safety = set(safety)
        e.deadline = time.time() + self.unit.budget - 2
        for k, v in kw.items():
            setattr(e, k, v)
        self.engines.append(e)
        return e

    def fn(self, rx):
        r = self.mod.find(rx)
        if not r:
            raise Unsupported('function not found: ' + rx)
        if len(r) > 1:
            defs = [x for x in r if self.mod.fn(x) is not None]
            if len(defs) != 1:
                raise Unsupported('ambiguous function: %s' % rx)
            return defs[0]
        return r[0]


def strip(o):
    m = o.get('model')
    return {'name': o['name'], 'result': o['result'], 'backend': o.get('backend'), 'time': round(o.get('time') or 0, 4),
            'model': {str(k): str(v) for k, v in list(m.items())[:60]} if isinstance(m, dict) else None,
            'info': o.get('info'), 'trace': [str(t) for t in (o.get('trace') or [])][-12:]}


def execute(mod, unit, tier, seed):
    ctx = Ctx(mod, unit, tier, seed)
    t0 = time.time()
    res = {'unit': unit.name, 'statement': unit.statement, 'bounded': unit.bounded, 'error': None}
    try:
        if unit.arg is not None:
            unit.fn(ctx, unit.arg)
        else:
            unit.fn(ctx)
    except Unsupported as x:
        res['error'] = 'out of reach: %s' % x
    except Limit as x:
        res['error'] = 'budget: %s' % x
    except Exception as x:
        res['error'] = 'tool error: %s\n%s' % (x, traceback.format_exc()[-1500:])
    obls, covers, inl, loops, mods = [], {}, set(), {}, set()
    q = st = 0
    for e in ctx.engines:
        obls += [strip(o) for o in e.obls]
        for k, v in e.covers.items():
            covers[k] = covers.get(k, False) or bool(v)
        inl |= {mod.dem.get(n, n) for n in e.inlined}
        for (f, h), labs in e.loops_seen.items():
            loops['%s %s' % (mod.dem.get(f, f).split('(')[0], h)] = labs
        mods |= {mod.dem.get(n, n) for n, m in e.model_cache.items() if m is not None}
        q += e.queries
        st += e.solver_time
    res.update(obligations=obls, covers=covers, functions=sorted(inl), loops=loops, contracts=sorted(mods), queries=q,
               solver_s=round(st, 3), wall_s=round(time.time() - t0, 3), notes=ctx.notes)
    if not res['error']:
        if not obls:
            res['error'] = 'vacuous: no obligation was generated'
        elif not covers or not all(covers.values()):
            res['error'] = 'vacuous: no feasible path reaches %s' % ([k for k, v in covers.items() if not v] or 'any exit')
    return res


def undecided(r):
    bad = [o['result'] for o in r['obligations'] if o['result'] != 'proved']
    return 'refuted' not in bad and (bool(bad) or str(r['error'] or '').startswith('budget'))


def run_all(mod, units, tier, seed, jobs=8, total=700):
    """run the units; those left undecided for want of solver time get a second attempt with more of it"""
    t_end = time.time() + total
    out = run_once(mod, units, tier, seed, jobs, total)
    again = [u for u, r in zip(units, out) if undecided(r)]
    left = t_end - time.time()
    settled = any(o['result'] == 'refuted' for r in out for o in r['obligations'])   # a violation already: more proofs would not change it
    if again and not settled and len(again) <= jobs and left > 60:
        intx.SCALE = 3
        for u in again:
            u.budget *= 3
        new = {r['unit']: r for r in run_once(mod, again, tier, seed + 1, jobs, left)}
        intx.SCALE = 1
        good = lambda r: sum(o['result'] == 'proved' for o in r['obligations']) - 1000 * bool(r['error'])
        out = [new[r['unit']] if r['unit'] in new and ('refuted' in [o['result'] for o in new[r['unit']]['obligations']] or not undecided(new[r['unit']]) or good(new[r['unit']]) > good(r)) else r for r in out]
    return out


def run_once(mod, units, tier, seed, jobs, total):
    """run units in forked workers with hard time limits"""
    todo = list(units)
    live = {}
    out = {}
    t_end = time.time() + total
    while todo or live:
        while todo and len(live) < jobs and time.time() < t_end - 3:
            u = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    u.budget = min(u.budget, t_end - time.time())
                    data = json.dumps(execute(mod, u, tier, seed)).encode()
                    with os.fdopen(w, 'wb') as fh:
                        fh.write(data)
                except BaseException:
                    code = 3
                os._exit(code)
            os.close(w)
            live[r] = (pid, u, time.time(), [])
        if not live:
            break
        rd, _, _ = select.select(list(live), [], [], .5)
        for r in rd:
            d = os.read(r, 1 << 16)
            if d:
                live[r][3].append(d)
                continue
            pid, u, t0, buf = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                out[u.name] = json.loads(b''.join(buf).decode())
            except ValueError:
                out[u.name] = {'unit': u.name, 'error': 'tool error: worker ended without a result', 'obligations': [], 'bounded': u.bounded}
        now = time.time()
        for r in list(live):
            pid, u, t0, buf = live[r]
            if now - t0 > u.budget + 8 or now > t_end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                out[u.name] = {'unit': u.name, 'error': 'budget: hard time limit', 'obligations': []}
    for u in todo:
        out[u.name] = {'unit': u.name, 'error': 'budget: not started', 'obligations': []}
    return [out[u.name] for u in units]
