"""Simulation driver: seeds -> scenarios -> isolated executions -> verdict, replay file, evidence.

One integer (VERIF_SEED) decides everything: run number i of property P is generated from
Random("P/seed/i").  Runs are grouped into batches; every batch is executed in a process of its own,
forked from one zygote which has imported the code under test and done nothing else, so a batch sees
the same initial state whatever ran before it and however many workers there are.
"""
import gc
import hashlib
import json
import os
import random
import select
import signal
import sys
import seams
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = seams.REPO
_now = seams.real_monotonic          # harness-side stopwatch; simulated code never sees it
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


class Violation(Exception):
    """The property does not hold in this execution."""

    def __init__(self, kind, detail=''):
        Exception.__init__(self, '%s: %s' % (kind, detail))
        self.kind, self.detail = kind, detail


class HarnessError(Exception):
    pass


def rng(*parts):
    return random.Random('/'.join(str(p) for p in parts))


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


class Stats(object):
    """What a batch covered; merged over batches."""

    def __init__(self):
        self.n = {}             # counters
        self.cover = {}         # name -> set of digests
        self.samples = []

    def add(self, key, k=1):
        self.n[key] = self.n.get(key, 0) + k

    def seen(self, name, obj):
        self.cover.setdefault(name, set()).add(obj if isinstance(obj, str) and len(obj) <= 16 else digest(obj))

    def merge(self, other):
        for k, v in other['n'].items():
            self.add(k, v)
        for k, v in other['cover'].items():
            self.cover.setdefault(k, set()).update(v)
        if len(self.samples) < 3:
            self.samples.extend(other['samples'][:3 - len(self.samples)])

    def dump(self):
        return {'n': self.n, 'cover': {k: sorted(v) for k, v in self.cover.items()}, 'samples': self.samples}


# ------------------------------------------------------------------ isolated execution
class Child(object):
    """fn(report) in a forked process; report(obj) sends one JSON line to the parent."""

    def __init__(self, fn, tag=None, cpu_limit=60.0):
        self.tag, self.cpu_limit = tag, cpu_limit
        rd, wr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(rd)
                signal.signal(signal.SIGINT, signal.SIG_DFL)

                def report(obj):
                    data = (json.dumps(obj) + '\n').encode()
                    while data:
                        data = data[os.write(wr, data):]
                fn(report)
                code = 0
            except BaseException:
                try:
                    report({'harness': traceback.format_exc()})
                except BaseException:
                    pass
            finally:
                os._exit(code)
        os.close(wr)
        self.pid, self.fd, self.buf, self.lines = pid, rd, b'', []
        self.done, self.status, self.hung = False, None, None
        self.last_cpu, self.last_move, self.mark_cpu = -1.0, _now(), 0.0
        self.next_look = _now() + 2.0

    def read(self):
        data = os.read(self.fd, 1 << 20)
        if not data:
            os.close(self.fd)
            self.status = os.waitpid(self.pid, 0)[1]
            self.done = True
            return
        self.buf += data
        if b'\n' in data:
            *full, self.buf = self.buf.split(b'\n')
            self.lines.extend(json.loads(x) for x in full)
            self.mark_cpu = max(self.last_cpu, 0.0)
            self.last_move = _now()

    def watch(self):
        """No progress: too much CPU since the last report, or asleep without CPU use for a long time."""
        now = _now()
        if now < self.next_look:
            return
        self.next_look = now + 1.0
        try:
            with open('/proc/%d/stat' % self.pid) as f:
                rest = f.read().rsplit(')', 1)[1].split()
        except (OSError, IndexError):
            return
        cpu = sum(int(x) for x in rest[11:15]) / float(os.sysconf('SC_CLK_TCK'))
        state = rest[0]
        if cpu > self.last_cpu + 0.005 or state in 'RDTt':
            if self.last_cpu < 0:
                self.mark_cpu = cpu
            self.last_cpu, self.last_move = cpu, now
        if cpu - self.mark_cpu > self.cpu_limit:
            self.hung = 'still running after %d s of CPU time' % self.cpu_limit
        elif now - self.last_move > 100:
            self.hung = 'blocked for ever'
        if self.hung:
            self.kill()

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass


def wait_one(children, timeout=0.5):
    ready = select.select([c.fd for c in children], [], [], timeout)[0]
    for c in children:
        if c.fd in ready:
            c.read()
        if not c.done:
            c.watch()
    return [c for c in children if c.done]


class Pristine(object):
    """A process forked before anything ran; answers 'what does this call give on its own' in forks of itself."""

    def __init__(self, fn, cpu_limit=60.0):
        import resource
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                with os.fdopen(r1) as requests:
                    for line in requests:
                        pid = os.fork()
                        if pid == 0:
                            code = 3
                            try:
                                resource.setrlimit(resource.RLIMIT_CPU, (int(cpu_limit), int(cpu_limit) + 5))
                                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                                signal.alarm(80)
                                out = {'r': fn(json.loads(line))}
                                code = 0
                            except Violation as e:
                                out = {'vio': [e.kind, str(e.detail)[:1500]]}
                            except BaseException:
                                out = {'harness': traceback.format_exc()}
                            _send(w2, out)
                            os._exit(code)
                        st = os.waitpid(pid, 0)[1]
                        if os.WIFSIGNALED(st):
                            _send(w2, {'sig': os.WTERMSIG(st)})
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, os.fdopen(r2)

    def ask(self, req):
        _send(self.w, req)
        line = self.r.readline()
        out = json.loads(line) if line else {'harness': 'pristine process died'}
        if 'r' in out:
            return out['r']
        if 'vio' in out:
            raise Violation(*out['vio'])
        if out.get('sig') in (signal.SIGXCPU, signal.SIGALRM):
            raise Violation('no progress', 'a call made on its own does not end: %s' % str(req)[:300])
        if 'sig' in out and out['sig'] != signal.SIGKILL:
            raise Violation('interpreter crash', 'signal %d in a call made on its own' % out['sig'])
        raise HarnessError('pristine call failed: %s' % out)

    def close(self):
        os.close(self.w)
        os.waitpid(self.pid, 0)


def _send(fd, obj):
    data = (json.dumps(obj) + '\n').encode()
    while data:
        data = data[os.write(fd, data):]


_report = [None]


def beat():
    """Tells the parent that a long run makes progress."""
    if _report[0]:
        _report[0]({'beat': 1})


def fork_map(fn, items, cpu_limit=60.0):
    """[fn(item)] computed in one fresh process each, several at a time; None where the process was stopped."""
    out, live, k = [None] * len(items), [], 0
    gc.collect()
    while k < len(items) or live:
        while k < len(items) and len(live) < WORKERS:
            live.append(Child(lambda report, x=items[k]: report({'r': fn(x)}), tag=k, cpu_limit=cpu_limit))
            k += 1
        for c in wait_one(live):
            live.remove(c)
            for l in c.lines:
                if 'r' in l:
                    out[c.tag] = l['r']
                if 'harness' in l:
                    raise HarnessError(l['harness'])
    return out


def in_repo(tb):
    """Does the traceback pass through the code under test?"""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def run_one(check, scn, stats, expect):
    """None or (kind, detail)."""
    try:
        check.run(scn, stats, expect)
    except Violation as e:
        return e.kind, str(e.detail)[:2000]
    except HarnessError:
        raise
    except Exception as e:
        if in_repo(e.__traceback__):
            return 'unexpected exception', ''.join(traceback.format_exception(e))[-1500:]
        if isinstance(e, (TypeError, ValueError, AttributeError, LookupError, ArithmeticError)):
            # the oracle met something no correct tree has given it: judged as a wrong result
            return 'result that cannot be interpreted', ''.join(traceback.format_exception(e))[-1500:]
        raise
    return None


def batch_body(check, scns, report):
    """Runs scenarios (iterable of (i, scn)) in this process until the first violation."""
    import resource
    _report[0] = report
    alone = Pristine(check.alone, check.cpu_limit) if check.alone else None
    if check.mem_limit:
        resource.setrlimit(resource.RLIMIT_AS, (check.mem_limit, check.mem_limit))
    stats = Stats()
    gc.disable()
    for i, scn in scns:
        report({'start': i})
        random.seed(i)
        try:
            expect = alone.ask(scn) if alone else None
        except Violation as e:
            bad = e.kind, str(e.detail)
        else:
            bad = run_one(check, scn, stats, expect)
        stats.add('runs')
        if bad:
            report({'bad': [i, bad[0], bad[1]], 'scn': scn})
            break
        gc.collect()
    report({'stats': stats.dump()})
    if alone:
        alone.close()


def scenarios(check, seed, lo, hi):
    for i in range(lo, hi):
        scn = check.gen(rng(check.id, seed, i), i)
        yield i, scn


def verdict(child, check):
    """(index, kind, detail, scn|None) or None; harness errors raise."""
    bad, last = None, None
    for l in child.lines:
        if 'start' in l:
            last = l['start']
        if 'bad' in l:
            bad = tuple(l['bad']) + (l['scn'],)
        if 'harness' in l:
            raise HarnessError(l['harness'])
    if bad:
        return bad
    if child.hung:
        return last, 'no progress', child.hung, None
    if child.status:
        if os.WIFSIGNALED(child.status) and os.WTERMSIG(child.status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE):
            return last, 'interpreter crash', 'signal %d' % os.WTERMSIG(child.status), None
        raise HarnessError('batch process ended with status %r' % child.status)
    return None


def run_list(check, scns, cpu_limit=None):
    """Executes a list of scenarios in one fresh process; verdict of it."""
    c = Child(lambda report: batch_body(check, list(enumerate(scns)), report), cpu_limit=cpu_limit or check.cpu_limit)
    while not c.done:
        wait_one([c], 0.5)
    return verdict(c, check)


# ------------------------------------------------------------------ minimisation
def minimise(check, seed, first, budget):
    """Smallest list of scenarios found that still shows the same kind of violation."""
    i, kind, detail, scn, lo = first
    t_end = _now() + budget
    batch = [json.loads(json.dumps(s)) for _, s in scenarios(check, seed, lo, i + 1)]
    if scn is None:
        scn = batch[-1]
    slow = kind in ('no progress',)
    trials = [0]

    def fails(scns, need=kind):
        trials[0] += 1
        try:
            v = run_list(check, scns)
        except HarnessError:
            return None
        return v if v and v[1] == need else None

    best = None
    full = batch[:-1] + [scn]
    v = fails([scn])
    if v:
        best = [scn]
    elif fails(full):
        best = full
        # which earlier runs are needed?
        chunk = max(1, (len(best) - 1) // 2)
        while chunk >= 1 and _now() < t_end and not slow:
            k = 0
            while k < len(best) - 1 and _now() < t_end:
                cand = best[:k] + best[k + chunk:-1] + best[-1:]
                if len(cand) < len(best) and fails(cand):
                    best = cand
                else:
                    k += chunk
            chunk //= 2
    else:
        for _ in range(3):
            if fails(full):
                best = full
                break
        else:
            return full, kind, detail, False, trials[0]
    progress = not slow
    while progress and _now() < t_end:
        progress = False
        for pos in range(len(best) - 1, -1, -1):
            for cand in check.shrink(best[pos]):
                if _now() > t_end:
                    break
                trial = best[:pos] + [cand] + best[pos + 1:]
                if fails(trial):
                    best, progress = trial, True
                    break
    v = fails(best)
    return best, kind, (v[2] if v else detail), bool(v), trials[0]


# ------------------------------------------------------------------ the check command
def explore(check, tier, seed):
    """Runs all batches of the tier; returns (stats, first violation or None, wall seconds)."""
    t0 = _now()
    check.setup(tier, seed)
    n_runs, per_batch = check.size[tier]
    limit = check.wall[tier]
    todo = [(lo, min(lo + per_batch, n_runs)) for lo in range(0, n_runs, per_batch)]
    stats, bad, live, skipped = Stats(), [], [], 0
    gc.collect()
    gc.freeze()
    k = 0
    while k < len(todo) or live:
        while k < len(todo) and len(live) < WORKERS:
            lo, hi = todo[k]
            if bad:
                k = len(todo)
                break
            if _now() - t0 > limit:
                skipped = len(todo) - k
                k = len(todo)
                break
            live.append(Child(lambda report, lo=lo, hi=hi: batch_body(check, scenarios(check, seed, lo, hi), report),
                              tag=lo, cpu_limit=check.cpu_limit))
            k += 1
        for c in wait_one(live) if live else []:
            live.remove(c)
            for l in c.lines:
                if 'stats' in l:
                    stats.merge(l['stats'])
            v = verdict(c, check)
            if v:
                bad.append(v + (c.tag,))
    stats.add('batches', k if not skipped else len(todo) - skipped)
    if skipped:
        stats.add('batches_not_run_wall_limit', skipped)
    return stats, (min(bad, key=lambda b: b[0]) if bad else None), _now() - t0


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = '%s.%d.tmp' % (path, os.getpid())
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write('\n')
    os.rename(tmp, path)


def main_check(check, tier, seed, evidence=None):
    stats, bad, wall = explore(check, tier, seed)
    runs = stats.n.get('runs', 0)
    distinct = len(stats.cover.get('distinct', ()))
    coverage = {
        'evaluations': runs, 'distinct_nontrivial': distinct, 'rule': check.rule, 'samples': stats.samples[:3],
        'simulated_runs': runs, 'seeds': runs, 'runs_per_hour': int(runs / wall * 3600) if wall else 0,
        'counters': {k: v for k, v in sorted(stats.n.items()) if not k.startswith('fault.') and not k.startswith('sim.')},
        'faults_injected': {k[6:]: v for k, v in sorted(stats.n.items()) if k.startswith('fault.')},
        'simulated': {k[4:]: v for k, v in sorted(stats.n.items()) if k.startswith('sim.')},
        'distinct': {k: len(v) for k, v in sorted(stats.cover.items())},
        'components': check.components,
        # everything that was executed, in one number: equal for equal seeds and sizes
        'execution_digest': digest([sorted(stats.n.items()), sorted((k, sorted(v)) for k, v in stats.cover.items())]),
    }
    ev = {'property': check.id, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': coverage,
          'assumptions': check.assumptions, 'wall_s': round(wall, 2), 'violations': 0}
    code = 0
    for line in check.known():
        print('KNOWN-FINDING: property=%s %s' % (check.id, line))
    if bad:
        best, kind, detail, confirmed, trials = minimise(check, seed, bad, check.shrink_budget[tier])
        path = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (check.id, seed, bad[0]))
        write_json(path, {'property': check.id, 'seed': seed, 'run': bad[0], 'kind': kind, 'detail': detail,
                          'runs': best, 'confirmed': confirmed, 'trials': trials})
        print('%s: run %d of seed %d: %s' % (check.id, bad[0], seed, kind))
        print('  ' + detail.replace('\n', '\n  ')[:1500])
        print('  minimised to %d run(s), %d bytes of scenario; %d trial executions; replay %s'
              % (len(best), len(json.dumps(best)), trials, 'reproduces it' if confirmed else 'did NOT reproduce it'))
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        ev['violations'] = 1
        code = 1
    write_json(os.path.join(evidence or os.path.join(VERIF, 'evidence'), check.id + '.json'), ev)
    print('%s: %d simulated runs (%d distinct) in %.1f s, %s' % (check.id, runs, distinct, wall, 'VIOLATED' if code else 'held'))
    return code


def main_replay(check, path):
    with open(path) as f:
        rep = json.load(f)
    v = run_list(check, rep['runs'])
    if v:
        print('%s: %s\n  %s' % (check.id, v[1], v[2].replace('\n', '\n  ')))
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        return 1
    print('%s: replay of %s: property held' % (check.id, path))
    return 0


class Check(object):
    """Base of the checks: what differs per property."""
    id = ''
    size = {'quick': (100, 10), 'thorough': (1000, 10)}
    wall = {'quick': 300, 'thorough': 1500}
    shrink_budget = {'quick': 60, 'thorough': 180}
    cpu_limit = 60.0
    mem_limit = 6 << 30
    rule = ''
    components = {}
    assumptions = []
    alone = None            # optional: scn -> JSON-able expectations, computed in a pristine process

    def setup(self, tier, seed):
        pass

    def known(self):
        """Listed defects that are still there: lines to print. They suppress nothing; no scenario contains them."""
        return []

    def gen(self, r, i):
        raise NotImplementedError

    def run(self, scn, stats, expect):
        raise NotImplementedError

    def shrink(self, scn):
        return ()


def drop_each(lst, keep=0):
    """Shrinking candidates of a list: halves, quarters, single elements removed."""
    n = len(lst)
    size = n // 2
    while size >= 1:
        for k in range(0, n, size):
            cand = lst[:k] + lst[k + size:]
            if keep <= len(cand) < n:
                yield cand
        size //= 2
