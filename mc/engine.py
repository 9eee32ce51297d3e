"""Bounded exhaustive explorer used by every check.

A check module enumerates a finite, ordered list of cases (simplest first).  One case is one
configuration or one operation sequence; running it drives the real angler code through its public
API and compares every observation with a reference model or an invariant.  The engine runs ALL
cases (never a sample), in parallel worker processes, counts what was covered, and turns the first
(= simplest) disagreement into a replay file.

Outcomes: 0 = everything explored agrees; 1 = "VIOLATION property=<id> replay=<path>".
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
from multiprocessing.connection import wait

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, 'evidence')
OUT = os.path.join(ROOT, 'out')
KNOWN = os.path.join(ROOT, 'known_findings.json')


class Violation(Exception):
    """The code under test disagrees with the model.  `key` identifies the failing input."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class CaseTimeout(Exception):
    pass


class Ctx:
    """Per-case recorder: transitions (operations on the real code), states, comparisons."""

    def __init__(self, tier='quick'):
        self.tier = tier
        self.n_ops = 0
        self.n_cmp = 0
        self.n_traces = 0
        self.states = set()
        self.trace = []
        self.known = []

    def op(self, name=None, n=1):
        """one API operation executed on the implementation"""
        self.n_ops += n
        if name is not None and len(self.trace) < 200:
            self.trace.append(str(name))

    def state(self, *parts):
        """one state of the system visited (hashed; distinct ones are counted)"""
        self.states.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest())

    def trace_ok(self, n=1):
        """a complete trace / configuration was compared with the model"""
        self.n_traces += n

    def check(self, cond, msg, key=None):
        self.n_cmp += 1
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)

    def fail(self, msg, key=None):
        for k in KNOWN_KEYS:
            if key is not None and k['key'] == key and k['property'] == CURRENT:
                self.known.append(key)
                return
        raise Violation(msg, key)


KNOWN_KEYS = []
CURRENT = None


def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f).get('findings', [])


def _alarm(signum, frame):
    raise CaseTimeout()


def _run_one(mod, case, tier, limit):
    """-> (violation or None, ctx)"""
    import numpy as np
    ctx = Ctx(tier)
    np.random.seed(12345)
    np.seterr(all='ignore')
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        mod.run(case, ctx)
        return None, ctx
    except Violation as v:
        return dict(msg=v.msg, key=v.key, trace=ctx.trace), ctx
    except CaseTimeout:
        return dict(msg='no answer within %d s' % limit, key=None, trace=ctx.trace), ctx
    except MemoryError:
        raise
    except BaseException as e:
        tb = traceback.format_exc(limit=-6)
        return dict(msg='the code under test raised %s: %s' % (type(e).__name__, e), key=None,
                    trace=ctx.trace, traceback=tb), ctx
    finally:
        signal.alarm(0)


def _worker(modname, cases, tier, limit, counter, conn, scratch):
    # keep progress bars and prints of the code under test out of our output
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    warnings.simplefilter('ignore')
    os.chdir(scratch)
    mod = importlib.import_module(modname)
    while True:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(cases):
            break
        conn.send(('start', i, None))
        v, c = _run_one(mod, cases[i], tier, limit)
        conn.send(('done', i, (v, c.n_ops, c.n_cmp, c.n_traces, c.states, c.known)))
    conn.send(('end', -1, None))
    conn.close()


def explore(modname, cases, tier, limit, deadline, nproc, scratch):
    ctx = mp.get_context('fork')
    counter = ctx.Value('l', 0)
    res = dict(done=0, ops=0, cmp=0, traces=0, states=set(), known=set(), violations=[], capped=False)
    live = {}

    def spawn():
        r, w = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(modname, cases, tier, limit, counter, w, scratch), daemon=True)
        p.start()
        w.close()
        live[r] = [p, None]

    for _ in range(min(nproc, max(1, len(cases)))):
        spawn()
    while live:
        if time.time() > deadline and not res['capped']:
            with counter.get_lock():
                if counter.value < len(cases):
                    res['capped'] = True
                    counter.value = len(cases)
        for r in wait(list(live), timeout=1.0):
            p, cur = live[r]
            try:
                kind, i, data = r.recv()
            except (EOFError, OSError):
                p.join()
                del live[r]
                if cur is not None:     # died in the middle of a case
                    res['violations'].append((cur, dict(msg='the process crashed (exit %s) while running this case'
                                                        % p.exitcode, key=None, trace=[])))
                    with counter.get_lock():
                        counter.value = len(cases)
                continue
            if kind == 'start':
                live[r][1] = i
            elif kind == 'end':
                del live[r]
                p.join()
            else:
                live[r][1] = None
                v, ops, ncmp, ntr, states, known = data
                res['done'] += 1
                res['ops'] += ops
                res['cmp'] += ncmp
                res['traces'] += ntr
                res['states'] |= states
                res['known'] |= set(known)
                if v is not None:
                    res['violations'].append((i, v))
                    with counter.get_lock():
                        counter.value = len(cases)
    return res


def main(pid, tier, only=None):
    global CURRENT
    t0 = time.time()
    CURRENT = pid
    KNOWN_KEYS.extend(load_known())
    modname = 'mc.checks.' + pid.lower()
    mod = importlib.import_module(modname)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if only is not None:
        with open(only) as f:
            case = json.load(f)['case']
        cases = [case]
    else:
        cases = json.loads(json.dumps(list(mod.cases(tier))))     # plain data only: replayable
    limit = getattr(mod, 'CASE_LIMIT', 240)
    budget = getattr(mod, 'BUDGET', {}).get(tier, 600 if tier == 'quick' else 800)
    nproc = int(os.environ.get('VERIF_JOBS', 0)) or min(8, len(os.sched_getaffinity(0)))
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix='mc_%s_' % pid)
    try:
        # warm the imports before forking
        if hasattr(mod, 'warm'):
            mod.warm()
        res = explore(modname, cases, tier, limit, t0 + budget, nproc, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = {k['key']: k for k in KNOWN_KEYS if k['property'] == pid}
    for key in sorted(res['known']):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[key]['what']))
    violations = sorted(res['violations'], key=lambda t: t[0])
    samples = [cases[i] for i in sorted({0, len(cases) // 2, len(cases) - 1})] if cases else []
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=len(res['states']), transitions=res['ops'],
                            traces_validated_against_impl=res['traces'],
                            comparisons=res['cmp'], cases_enumerated=len(cases), cases_run=res['done'],
                            exhaustive=bool(res['done'] == len(cases) and not res['capped']),
                            time_cap_hit=res['capped'],
                            bound=getattr(mod, 'BOUND', {}).get(tier, ''), rule=getattr(mod, 'RULE', ''),
                            samples=samples),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              known_findings=sorted(res['known']),
              wall_s=round(time.time() - t0, 3), violations=len(violations))
    if only is None:
        os.makedirs(EVIDENCE, exist_ok=True)
        tmp = os.path.join(EVIDENCE, '.%s.%d' % (pid, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVIDENCE, pid + '.json'))
    print('%s %s: %d/%d cases, %d states, %d transitions, %d traces, %d comparisons%s, %.1f s'
          % (pid, tier, res['done'], len(cases), len(res['states']), res['ops'], res['traces'], res['cmp'],
             ', TIME CAP HIT' if res['capped'] else '', time.time() - t0))
    if violations:
        i, v = violations[0]
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, '%s_%d.json' % (pid, i)) if only is None else only
        if only is None:
            with open(path, 'w') as f:
                json.dump(dict(property=pid, case=cases[i], violation=v,
                               replay='%s/check.sh %s --replay %s' % (ROOT, pid, path)), f, indent=1, default=str)
        print('case: %s' % json.dumps(cases[i]))
        print(v['msg'])
        if v.get('traceback'):
            print(v['traceback'])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if res['traces'] == 0 or res['done'] == 0:
        print('internal error: nothing was explored')
        return 2
    return 0


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    a = ap.parse_args()
    sys.path.insert(0, ROOT)
    # run as the module "mc.engine" so that the checks see the same classes
    from mc import engine
    sys.exit(engine.main(a.property, a.tier, a.replay))
