"""Property-based testing engine of this framework (on top of hypothesis).

A check module (checks/<ID>.py) defines
    PROPERTY = '<ID>'
    RULE     = how cases are made and what makes one non-trivial
    SUBS     = [Sub(name, strategy, run, quick=N, thorough=M, shards=k), ...]

`strategy` generates a plain JSON value (the case); `run(case, ctx)` builds the real inputs from it,
drives the code of /repo and compares with an oracle.  It calls ctx.fail(...) (or lets the code under
test raise) to report a violation, ctx.nontrivial() when the case exercised the interesting situation
and ctx.event(label) to classify it.  A failing case is shrunk by hypothesis and stored as the replay
file; `check.py --replay FILE` runs it again without hypothesis.
"""
import contextlib
import faulthandler
import hashlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import boot

WORKERS = 8
HANG = 120     # seconds of computing (twice as much of waiting); the slowest cases of the unchanged tree take a few


class Violation(AssertionError):
    pass


class Sub:
    def __init__(self, name, strategy, run, quick=100, thorough=2000, shards=1, tshards=4, shrink=True,
                 examples=()):
        self.name = name
        self.strategy = strategy          # zero-argument callable returning a hypothesis strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.tshards = tshards
        self.shrink = shrink
        self.examples = list(examples)    # fixed cases, run before the generated ones


class Ctx:
    """Handed to every run() call."""

    def __init__(self, tier='quick'):
        self.tier = tier
        self.events = {}
        self._nontrivial = False
        self.note = None
        self.known_hits = []
        self._dirs = []
        self.deadline = None

    def nontrivial(self, flag=True):
        if flag:
            self._nontrivial = True

    def event(self, label):
        self.events[label] = self.events.get(label, 0) + 1

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def close(self, a, b, msg, rtol=1e-9, atol=1e-9):
        import numpy as np
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            raise Violation('%s: shape %s, expected %s' % (msg, a.shape, b.shape))
        if a.size == 0:
            return
        bad = ~np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=False)
        if bad.any():
            i = tuple(int(x[0]) for x in np.where(bad)) if a.ndim else ()
            raise Violation('%s: %d of %d values differ, first at %s: got %r, expected %r (rtol %g atol %g)' % (
                msg, int(bad.sum()), a.size, i, a[i].item() if a.ndim else a.item(),
                b[i].item() if b.ndim else b.item(), rtol, atol))

    def tempdir(self):
        d = tempfile.mkdtemp(prefix='case.', dir=boot.scratch())
        self._dirs.append(d)
        return d

    def cleanup(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []

    def known(self, key, what):
        """A listed, unrepaired finding was met by this very case."""
        self.known_hits.append((key, what))


@contextlib.contextmanager
def quiet():
    """Swallow what dynaphopy prints."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        yield out


def reset_globals():
    """dynaphopy keeps its settings in a process-wide singleton; start each case from defaults."""
    import dynaphopy.parameters as p
    for name in dir(p):
        c = getattr(p, name)
        if isinstance(c, type) and hasattr(c, '_instances') and isinstance(c._instances, dict):
            c._instances.clear()
    import matplotlib.pyplot as plt
    plt.close('all')
    os.environ.pop('DYNAPHOPY_TEMPDIR', None)


def canon(case):
    return json.dumps(case, sort_keys=True)


def run_case(sub, case, tier):
    """One execution of the property on one case; raises on violation. Returns the ctx."""
    ctx = Ctx(tier)
    reset_globals()
    cwd = os.getcwd()
    try:
        with quiet():
            try:
                sub.run(case, ctx)
            except SystemExit as e:
                raise Violation('the code under test called exit(%r)' % (e.code,)) from e
    finally:
        os.chdir(cwd)
        ctx.cleanup()
    return ctx


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ''
    for fr in reversed(tb):
        if fr.filename.startswith(boot.REPO):
            where = ' at %s:%d' % (os.path.relpath(fr.filename, boot.REPO), fr.lineno)
            break
    return '%s: %s%s' % (type(exc).__name__, exc, where)


def _seed(seed, *parts):
    h = hashlib.sha256(('|'.join([str(seed)] + [str(p) for p in parts])).encode()).hexdigest()
    return int(h[:15], 16)


def _cpu(pid):
    """processor time used by a process so far"""
    try:
        f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        return sum(int(k) for k in f[11:15]) / float(os.sysconf('SC_CLK_TCK'))
    except (OSError, IndexError, ValueError):
        return 0.


def _read(path):
    try:
        return open(path).read()[-3000:]
    except OSError:
        return ''


class _Watch:
    """Tells a case that does not end from a machine that is busy or was stopped: time counts while this process gets to
    look, in small steps, and the worker has to have used the processor or to have waited for very long."""

    def __init__(self, pid, cur):
        self.pid, self.cur = pid, cur
        self.stamp, self.waited, self.cpu = None, 0., 0.

    def hangs(self, dt):
        try:
            stamp = os.path.getmtime(self.cur)
        except OSError:
            return False
        if stamp != self.stamp:
            self.stamp, self.waited, self.cpu = stamp, 0., _cpu(self.pid)
            return False
        self.waited += dt
        if self.waited < HANG:
            return False
        return self.waited > 2 * HANG or _cpu(self.pid) - self.cpu > HANG / 2


class _Worker:
    """Runs one (sub, shard) in this (forked) process."""

    def __init__(self, prop, sub, shard, nshards, tier, seed, budget, outfile, curfile, deadline):
        self.__dict__.update(locals())
        self.evals = 0
        self.seen = {}
        self.samples = []
        self.events = {}
        self.known = {}
        self.best = None
        self.best_msg = None
        self.fail_time = None
        self.shrink_limit = 30 if tier == 'quick' else 120
        self.truncated = False

    def one(self, case):
        key = canon(case)
        if os.path.exists(self.curfile):
            os.utime(self.curfile)      # the parent tells a hanging case by the age of this file
        if self.fail_time is not None:
            # shrinking: bounded in wall time; afterwards only the best case fails
            if time.time() - self.fail_time > self.shrink_limit and key != canon(self.best):
                return
        elif time.time() > self.deadline:
            self.truncated = True
            return
        with open(self.curfile, 'w') as f:
            f.write(key)
        self.evals += 1
        try:
            ctx = run_case(self.sub, case, self.tier)
        except boot.HarnessError:
            raise
        except Exception as e:
            if self.fail_time is None:
                self.fail_time = time.time()
            self.best = case
            self.best_msg = describe(e)
            raise
        for k, v in ctx.events.items():
            self.events[k] = self.events.get(k, 0) + v
        for k, w in ctx.known_hits:
            self.known[k] = w
        if ctx._nontrivial:
            h = hashlib.sha1(key.encode()).hexdigest()
            if h not in self.seen:
                self.seen[h] = 1
                if len(self.samples) < 3:
                    self.samples.append({'sub': self.sub.name, 'case': case,
                                         **({'observed': ctx.note} if ctx.note is not None else {})})

    def main(self):
        import hypothesis
        from hypothesis import settings, given, HealthCheck, Phase
        from hypothesis.errors import Flaky, FlakyFailure
        res = {'sub': self.sub.name, 'status': 'ok'}
        try:
            if self.shard == 0:
                for case in self.sub.examples:
                    self.one(json.loads(canon(case)))
            phases = [Phase.generate] + ([Phase.shrink] if self.sub.shrink else [])
            st = settings(max_examples=self.budget, database=None, deadline=None, phases=phases,
                          suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                 HealthCheck.large_base_example],
                          print_blob=False, report_multiple_bugs=False,
                          verbosity=hypothesis.Verbosity.quiet)

            @hypothesis.seed(_seed(self.seed, self.prop, self.sub.name, self.shard, self.nshards))
            @st
            @given(self.sub.strategy())
            def test(case):
                self.one(json.loads(canon(case)))

            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                test()
        except boot.HarnessError as e:
            res = {'sub': self.sub.name, 'status': 'harness', 'msg': str(e)}
        except BaseException as e:
            if self.best is None:
                res = {'sub': self.sub.name, 'status': 'harness',
                       'msg': 'hypothesis or harness problem: ' + ''.join(traceback.format_exception(e))}
            else:
                # confirm with a plain re-run outside hypothesis (several: threads may have to meet)
                try:
                    for _ in range(12):
                        os.utime(self.curfile)
                        run_case(self.sub, self.best, self.tier)
                    res = {'sub': self.sub.name, 'status': 'flaky', 'case': self.best, 'msg': self.best_msg}
                except boot.HarnessError as e2:
                    res = {'sub': self.sub.name, 'status': 'harness', 'msg': str(e2)}
                except Exception as e2:
                    res = {'sub': self.sub.name, 'status': 'violation', 'case': self.best, 'msg': describe(e2),
                           'trace': ''.join(traceback.format_exception(e2))[-3000:]}
        res.update(evals=self.evals, hashes=list(self.seen), samples=self.samples, events=self.events,
                   known=self.known, truncated=self.truncated)
        tmp = self.outfile + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(res, f)
        os.rename(tmp, self.outfile)


def write_replay(prop, res):
    d = os.path.join(boot.EVIDENCE, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, res['sub']))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'sub': res['sub'], 'case': res['case'], 'message': res['msg'],
                   'trace': res.get('trace'),
                   'rerun': '/verif/check.py --replay ' + path}, f, indent=1)
    return path


def known_findings(prop):
    path = os.path.join(boot.VERIF, 'KNOWN_FINDINGS.jsonl')
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#') and line.startswith('{'):
                d = json.loads(line)
                if d['property'] == prop and d.get('status') == 'open':
                    out[d['key']] = d
    return out


def execute(module, tier, seed, only=None, scale=1.0):
    """Run all sub-checks of a module; returns exit code."""
    t0 = time.time()
    prop = module.PROPERTY
    budget_s = float(os.environ.get('VERIF_BUDGET', 240 if tier == 'quick' else 780))
    deadline = t0 + budget_s
    awake, last = 0., t0         # a stop of the whole machine must not count
    jobs = []
    for sub in module.SUBS:
        if only and sub.name not in only:
            continue
        n = sub.quick if tier == 'quick' else sub.thorough
        n = max(1, int(n * scale))
        k = sub.shards if tier == 'quick' else sub.tshards
        k = min(k, n)
        for s in range(k):
            jobs.append((sub, s, k, (n + k - 1) // k))
    running, results = {}, []
    base = tempfile.mkdtemp(prefix='run.', dir=boot.scratch())
    queue = list(enumerate(jobs))
    sys.stdout.flush()
    sys.stderr.flush()
    while queue or running:
        while queue and len(running) < WORKERS:
            i, (sub, s, k, n) = queue.pop(0)
            out = os.path.join(base, '%d.json' % i)
            cur = os.path.join(base, '%d.cur' % i)
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    os.setpgid(0, 0)
                    # anything the C code prints must not look like our report
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(devnull, 1)
                    w = os.path.join(base, 'w%d' % i)
                    os.makedirs(w)
                    os.chdir(w)
                    faulthandler.register(signal.SIGUSR1, file=open(cur + '.trace', 'w'), all_threads=True)
                    _Worker(prop, sub, s, k, tier, seed, n, out, cur, deadline).main()
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            running[pid] = (i, sub, out, cur, time.time(), _Watch(pid, cur))
        time.sleep(0.01)
        dt = min(max(time.time() - last, 0.), 1.)
        awake, last = awake + dt, time.time()
        for pid in list(running):
            p, status = os.waitpid(pid, os.WNOHANG)
            i, sub, out, cur, started, watch = running[pid]
            if p == 0:
                hang = not os.path.exists(out) and watch.hangs(dt)
                if awake > budget_s + 90 or hang:
                    try:
                        os.kill(pid, signal.SIGUSR1)
                        time.sleep(0.5)
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(pid, 0)
                    del running[pid]
                    if hang:
                        results.append({'sub': sub.name, 'status': 'violation', 'case': json.load(open(cur)),
                                        'msg': 'the case did not end within %d s' % HANG, 'evals': 1, 'hashes': [],
                                        'trace': _read(cur + '.trace'),
                                        'samples': [], 'events': {}, 'known': {}, 'truncated': False})
                        queue = []
                        continue
                    results.append({'sub': sub.name, 'status': 'harness', 'evals': 0,
                                    'msg': 'time limit exceeded\n' + _read(cur + '.trace'),
                                    'hashes': [], 'samples': [], 'events': {}, 'known': {}, 'truncated': True})
                continue
            del running[pid]
            if os.environ.get('VERIF_TIMING'):
                print('timing %s[%d] %.1fs' % (sub.name, i, time.time() - started))
            if os.path.exists(out):
                results.append(json.load(open(out)))
            elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE,
                                                                    signal.SIGBUS, signal.SIGILL):
                case = json.load(open(cur)) if os.path.exists(cur) else None
                results.append({'sub': sub.name, 'status': 'violation', 'case': case,
                                'msg': 'the process crashed with signal %d' % os.WTERMSIG(status), 'evals': 1,
                                'hashes': [], 'samples': [], 'events': {}, 'known': {}, 'truncated': False})
            else:
                results.append({'sub': sub.name, 'status': 'harness', 'msg': 'worker ended with status %d' % status,
                                'evals': 0, 'hashes': [], 'samples': [], 'events': {}, 'known': {},
                                'truncated': False})
    # ---- report
    open_known = known_findings(prop)
    known = {}
    for r in results:
        for k, w in r['known'].items():
            known[k] = w
    viol = [r for r in results if r['status'] == 'violation']
    for k in list(known):
        if k not in open_known:
            viol.append({'sub': 'known', 'case': {'key': k}, 'msg': 'unlisted finding: ' + known[k]})
    errors = [r for r in results if r['status'] in ('harness', 'flaky')]
    evals = sum(r['evals'] for r in results)
    # distinct across shards: cases are hashed by their JSON form, per sub-check
    distinct, per, events, samples = set(), {}, {}, []
    for r in results:
        e = per.setdefault(r['sub'], {'evaluations': 0, 'nontrivial': set(), 'truncated': False})
        e['evaluations'] += r['evals']
        e['nontrivial'].update(r['hashes'])
        e['truncated'] |= bool(r['truncated'])
        distinct.update(r['sub'] + h for h in r['hashes'])
        for k, v in r['events'].items():
            k = r['sub'] + ':' + k
            events[k] = events.get(k, 0) + v
        samples += r['samples'][:2]
    samples = [_trim(s) for s in samples[:12]]
    evidence = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
                'coverage': {'evaluations': evals, 'distinct_nontrivial': len(distinct),
                             'rule': module.RULE, 'samples': samples,
                             'per_subcheck': {k: {'evaluations': v['evaluations'],
                                                  'distinct_nontrivial': len(v['nontrivial']),
                                                  'stopped_by_time_budget': v['truncated']}
                                              for k, v in per.items()},
                             'classes': events},
                'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
                'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if not only:
        os.makedirs(boot.EVIDENCE, exist_ok=True)
        path = os.path.join(boot.EVIDENCE, prop + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1, default=str)
        os.rename(path + '.tmp', path)
    for k in known:
        if k in open_known:
            print('KNOWN-FINDING: property=%s %s' % (prop, open_known[k]['what']))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs' % (prop, tier, seed, evals, len(distinct),
                                                                     time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        for k, v in per.items():
            print('   %-28s %6d cases %6d non-trivial%s' % (k, v['evaluations'], len(v['nontrivial']),
                                                            ' (time budget)' if v['truncated'] else ''))
        for k in sorted(events):
            print('      %-50s %d' % (k, events[k]))
    if viol:
        for r in viol:
            path = write_replay(prop, r)
            print('   %s: %s' % (r['sub'], r['msg'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for r in errors:
            print('ERROR %s (%s): %s' % (r['sub'], r['status'], r.get('msg', '')), file=sys.stderr)
        return 2
    if evals == 0 or len(distinct) == 0:
        print('ERROR: vacuous run', file=sys.stderr)
        return 2
    return 0


def _trim(s):
    t = json.dumps(s, default=str)
    if len(t) > 2500:
        return {'sub': s.get('sub'), 'case_json_prefix': t[:2500]}
    return s


def replay(path):
    import importlib
    d = json.load(open(path))
    mod = importlib.import_module('checks.' + d['property'])
    for sub in mod.SUBS:
        if sub.name == d['sub']:
            try:
                run_case(sub, d['case'], 'quick')
            except boot.HarnessError:
                raise
            except Exception as e:
                print('   %s: %s' % (sub.name, describe(e)))
                if os.environ.get('VERIF_VERBOSE'):
                    traceback.print_exc()
                print('VIOLATION property=%s replay=%s' % (d['property'], path))
                return 1
            print('the case holds now')
            return 0
    print('no such sub-check', d['sub'], file=sys.stderr)
    return 2
