"""Runner: drives the real code in /repo with generated workloads, feeds what it
returns to the monitors of one property, and writes verdict, replay and evidence.

Three verdicts: exit 0 held on everything observed, exit 1 violated (with a VIOLATION
line and a replay file), exit 3 inconclusive (a monitor that should have fired never did).
"""
import collections
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MEMORY = 3 * 2 ** 30      # per process: a runaway case fails by itself instead of exhausting the machine
EVID = os.path.join(VERIF, 'evidence')


class Violated(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """the case is outside the quantifier of the property (for instance degenerate data)"""


def plain(x):
    """JSON-able rendering of arrays, sets and so on"""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((plain(v) for v in x), key=str)
    if hasattr(x, 'tolist'):
        return plain(x.tolist())
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Mon(object):
    """what the monitors of one case observed"""

    def __init__(self):
        self.obs = collections.Counter()
        self.trivial = False

    def ok(self, cond, msg, **data):
        """one oracle evaluation on one observed event"""
        self.obs['oracle evaluations'] += 1
        if not cond:
            raise Violated(msg + (' ' + json.dumps(plain(data))[:3000] if data else ''))

    def count(self, kind, n=1):
        self.obs[kind] += n

    def raises(self, excs, fn, what, *args, **kw):
        """fn(*args) must be refused with one of excs"""
        self.obs['oracle evaluations'] += 1
        self.obs['rejections observed'] += 1
        try:
            r = fn(*args, **kw)
        except excs:
            return
        except Exception as e:
            raise Violated('%s: expected %s, got %s: %s' % (what, excs, type(e).__name__, e))
        raise Violated('%s: expected %s, but it returned %s' % (what, excs, str(plain(r))[:500]))


def load(pid):
    return importlib.import_module('vmon.props.%s' % pid.lower())


_prop = None
_tier = 'quick'


def _alarm(*a):
    raise CaseTimeout()


def run_case(case):
    """returns (status, message, observations, trivial)"""
    mon = Mon()
    limit = int(getattr(_prop, 'CASE_LIMIT', 240)) * (4 if _tier == 'thorough' else 1)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    devnull = open(os.devnull, 'w')
    out = sys.stdout
    sys.stdout = devnull
    t0 = time.time()
    try:
        import numpy as np
        random.seed(case.get('s', 0))
        np.random.seed(case.get('s', 0) % (2 ** 32))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _prop.run(case, mon)
        st, msg = 'ok', ''
    except Skip as e:
        st, msg = 'skip', str(e)
    except Violated as e:
        st, msg = 'violated', str(e)
    except CaseTimeout:
        st, msg = 'violated', 'no answer within %d s (such calls take seconds at most)' % limit
    except Exception as e:
        st, msg = 'violated', 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
        sys.stdout = out
        devnull.close()
    mon.obs['skipped'] += st == 'skip'
    return st, msg, dict(mon.obs), mon.trivial, time.time() - t0


def _worker(conn, cases, wid, nw):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    except Exception:
        pass
    for i in range(wid, len(cases), nw):
        res = run_case(cases[i])
        try:
            conn.send((i, res))
        except (OSError, ValueError):
            break
    conn.close()
    os._exit(0)


def profile_reach(cases):
    """which functions of the repository the first cases reach (evidence only)"""
    seen = set()
    root = os.path.join(REPO, 'structrans')

    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(root):
                seen.add(co.co_filename[len(root) + 1:] + ':' + co.co_name)
    for c in cases:
        sys.setprofile(prof)
        try:
            run_case(c)
        finally:
            sys.setprofile(None)
    return sorted(seen)


def main(argv):
    global _prop, _tier
    pid = argv[0]
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    tier = _tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sys.path.insert(0, REPO)
    t0 = time.time()
    try:
        import structrans
        where = os.path.abspath(structrans.__file__)
        if not where.startswith(os.path.abspath(REPO) + os.sep):
            print('INCONCLUSIVE property=%s structrans imported from %s' % (pid, where))
            return 3
        _prop = load(pid)
    except Exception as e:
        traceback.print_exc()
        return report(pid, None, {'s': 0}, 'import failed: %s: %s' % (type(e).__name__, e), tier, seed, t0, 0, 0, {}, [], 0)
    if replay:
        case = json.load(open(replay))['case']
        st, msg, obs, tr, dt = run_case(case)
        print(st, msg, obs, '%.2fs' % dt)
        return 1 if st == 'violated' else 0

    cases = []
    for i, c in enumerate(_prop.cases(tier, random.Random('%s-%d' % (pid, seed)))):
        c.setdefault('s', random.Random('%s-%d-%d' % (pid, seed, i)).randrange(2 ** 31))
        cases.append(c)
    nw = int(os.environ.get('VERIF_JOBS', '0')) or min(8, max(1, os.cpu_count() or 1))
    nw = min(nw, len(cases))
    # warm up imports before forking
    import multiprocessing as mp
    from multiprocessing import connection as mpc
    ctx = mp.get_context('fork')
    conns, procs = [], []
    sys.stdout.flush()
    for w in range(nw):
        r, s = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(s, cases, w, nw))
        p.start()
        s.close()
        conns.append(r)
        procs.append(p)
    total = collections.Counter()
    sigs = set()
    done = 0
    slow = (0, None)
    viol = None
    samples = []
    budget = float(os.environ.get('VERIF_BUDGET', 820 if tier == 'quick' else 6 * 3600))
    live = list(conns)
    at = {c: w for w, c in enumerate(conns)}
    nxt = {c: w for w, c in enumerate(conns)}
    while live and viol is None:
        if time.time() - t0 > budget:
            break
        for c in mpc.wait(live, 5):
            try:
                i, (st, msg, obs, trivial, dt) = c.recv()
            except EOFError:
                live.remove(c)
                p = procs[at[c]]
                p.join(5)
                if nxt[c] < len(cases) and p.exitcode:
                    # a sanitizer of last resort: the code under test crashed the interpreter or ate all memory
                    viol = (nxt[c], 'the process running this case died (exit code %s)' % p.exitcode)
                    break
                continue
            nxt[c] = i + nw
            done += 1
            total.update(obs)
            total['status ' + st] += 1
            if os.environ.get('VERIF_TIMES') and dt > float(os.environ['VERIF_TIMES']):
                print('%.1fs case %d %s' % (dt, i, json.dumps(cases[i])))
            if dt > slow[0]:
                slow = (dt, i)
            if st == 'ok' and not trivial:
                sigs.add(hashlib.md5(json.dumps(cases[i], sort_keys=True, default=str).encode()).hexdigest())
                if len(samples) < 3:
                    samples.append(cases[i])
            if st == 'violated':
                viol = (i, msg)
                break
    for p in procs:
        if p.is_alive():
            if viol is not None or live:
                p.kill()
        p.join(5)
    if viol is not None:
        i, msg = viol
        return report(pid, i, cases[i], msg, tier, seed, t0, done, len(sigs), total, samples, slow[0])
    lost = len(cases) - done
    reach = profile_reach(cases[:int(getattr(_prop, 'PROFILE', 2))]) if done else []
    write_evidence(pid, tier, seed, t0, done, len(sigs), total, samples, 0, reach, len(cases), slow)
    floors = getattr(_prop, 'FLOORS', {'oracle evaluations': 50})
    bad = ['%s=%d<%d' % (k, total.get(k, 0), v) for k, v in floors.items() if total.get(k, 0) < v]
    if lost or bad:
        print('INCONCLUSIVE property=%s cases lost=%d %s' % (pid, lost, ' '.join(bad)))
        return 3
    print('HELD property=%s tier=%s seed=%d cases=%d distinct=%d %s slowest=%.1fs wall=%.1fs' % (
        pid, tier, seed, done, len(sigs), dict(total), slow[0], time.time() - t0))
    return 0


def report(pid, idx, case, msg, tier, seed, t0, done, distinct, total, samples, slow):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d.json' % (pid, tier, seed))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'case_index': idx, 'case': plain(case),
                   'message': msg}, f, indent=1)
    write_evidence(pid, tier, seed, t0, done, distinct, total, samples or [case], 1, [], done, (slow, idx))
    print('case %s: %s' % (json.dumps(plain(case))[:2000], msg))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def write_evidence(pid, tier, seed, t0, done, distinct, total, samples, nviol, reach, ncases, slow):
    os.makedirs(EVID, exist_ok=True)
    rule = getattr(_prop, 'RULE', '') if _prop else ''
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': done, 'distinct_nontrivial': distinct,
                       'rule': rule or 'distinct generated cases, not trivial for the property, whose monitors all ran',
                       'samples': plain(samples)[:3], 'observed': {k: int(v) for k, v in sorted(total.items())},
                       'cases_planned': ncases, 'repo_functions_reached_by_first_cases': reach,
                       'slowest_case_s': round(slow[0], 2)},
          'assumptions': list(getattr(_prop, 'ASSUMPTIONS', [])) if _prop else [],
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    with open(os.path.join(EVID, '%s.json' % pid), 'w') as f:
        json.dump(ev, f, indent=1)

