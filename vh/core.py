"""The runner: generates cases, runs oracles, shrinks and records failures, writes evidence.

A check module (checks/<ID>.py) defines PROPERTY, RULE and PARTS.  A Part couples a Hypothesis
strategy that yields JSON-able cases with a function that runs the code under test on one case and
judges it.  The function raises Violation when the property is broken; anything else it raises is an
error of the harness (exit 2), because calls into the code under test go through `call`, which
turns their exceptions into Violations.
"""
import contextlib
import hashlib
import io as _io
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import boot


class Violation(Exception):
    pass


class Known(Exception):
    """The code misbehaved exactly as a listed finding says."""

    def __init__(self, key, what=''):
        super().__init__(key, what)
        self.key, self.what = key, what


class _OutOfTime(BaseException):
    pass


class Part:
    def __init__(self, name, strategy, fn, quick=100, thorough=None, shards=4, exhaustive=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 20
        self.shards = shards
        self.exhaustive = exhaustive  # a function returning a list of cases, run in full every time


class Ctx:
    """What a check function may use while judging one case."""

    def __init__(self, seed):
        self.dir = None
        self.seed = seed
        self._labels = []
        self._nontrivial = False
        self._known = []
        self.layout = self.uncut = 0
        self.relative = False

    def nontrivial(self, yes=True):
        self._nontrivial = bool(yes)

    def label(self, *names):
        self._labels.extend(str(n) for n in names)

    def known(self, key):
        """A deviation that matches a listed finding exactly: note it and carry on."""
        self._known.append(key)

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, data):
        p = self.path(name)
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode('utf-8'))
        return os.path.relpath(p) if self.relative else p

    def files(self, stem, texts):
        """Data files in the order of the list: numbered in one folder (up or down), or one name in a folder each; the last
        line of each may lack its newline."""
        paths = []
        for k, text in enumerate(texts):
            if self.uncut == 0:
                text = text[:-2] if text[-2:] in ('\r\n', b'\r\n') else text[:-1] if text[-1:] in ('\n', b'\n') else text
            if self.layout == 1:
                os.makedirs(self.path('leg%d' % k), exist_ok=True)
                paths.append(self.write(os.path.join('leg%d' % k, stem + '.dat'), text))
            else:
                paths.append(self.write('%s%03d.dat' % (stem, k if self.layout == 0 else 999 - k), text))
        return paths


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(_io.StringIO()), contextlib.redirect_stderr(_io.StringIO()):
        yield


def call(fn, *a, **k):
    """Call the code under test inside the property's domain: it must not raise."""
    lists = [(x, list(x)) for x in a if isinstance(x, list) and all(isinstance(s, str) for s in x)]
    try:
        with quiet():
            r = fn(*a, **k)
        need(all(x == was for x, was in lists), '%s changed the list of paths it was given', getattr(fn, '__name__', fn))
        return r
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f'{os.path.basename(t.filename)}:{t.lineno}' for t in reversed(tb)
                      if t.filename.startswith(boot.REPO)), '?')
        raise Violation(f'{getattr(fn, "__name__", fn)} raised {type(e).__name__}: {e} (at {where})') from None


def refuses(fn, exc, *a, **k):
    """The call must raise one of exc."""
    try:
        with quiet():
            r = fn(*a, **k)
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f'{fn.__name__} raised {type(e).__name__}: {e} instead of refusing') from None
    raise Violation(f'{fn.__name__} accepted an input it must refuse and returned {str(r)[:200]}')


def need(ok, msg, *args):
    if not ok:
        raise Violation(msg % args if args else msg)


# ---------------------------------------------------------------- one shard of one part

def _canon(case):
    return json.dumps(case, sort_keys=True)


SHARED = (' The parts named history, holders, one sample changed and a piece cut out / day record are those of E02, E06 and E07 for the functions of this '
          'property: call histories against calls alone, other holders of the same series, the reach of a changed sample, pieces against the whole.')
HANG = 100  # seconds; a case takes milliseconds
QUICK_SCALE = 3


class _Hang(BaseException):
    pass


def _on_alarm(*_):
    raise _Hang()


# What no result may depend on: the clock zone of the computer (POSIX rules, so that no tz database is needed) and the folder of the files.
ZONES = ('UTC0', 'AKST9AKDT,M3.2.0,M11.1.0', 'IST-5:30', '<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45', 'CET-1CEST,M3.5.0,M10.5.0/3')
FOLDERS = ('vh_', 'vh cruise.ini, leg #2 [a] $GPGGA_', 'vh_M\u00e1laga-\u5317_')


def run_case(part, case, seed, acc=None):
    ctx = Ctx(seed)
    h = hashlib.blake2b(_canon(case).encode(), digest_size=4).digest()
    os.environ['TZ'] = ZONES[h[0] % len(ZONES)]
    time.tzset()
    ctx.dir = tempfile.mkdtemp(prefix=FOLDERS[h[1] % len(FOLDERS) if os.fsencode('\u00e1') == '\u00e1'.encode() else 0])
    ctx.layout, ctx.uncut, ctx.relative = h[2] % 3, h[3] % 3, h[3] // 3 % 3 == 0
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(HANG)
    try:
        try:
            part.fn(case, ctx)
        finally:
            signal.alarm(0)
    except _Hang:
        raise Violation(f'no result after {HANG} s') from None
    except (Violation, MemoryError, OSError):
        raise
    except Exception as e:  # noqa: BLE001 - what came back could not even be compared (shape, type, column)
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(f'the result cannot be judged: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})') from e
    finally:
        shutil.rmtree(ctx.dir, ignore_errors=True)
        if acc is not None:
            acc['evaluations'] += 1
            if ctx._nontrivial:
                acc['hashes'].add(hashlib.blake2b(_canon(case).encode(), digest_size=8).hexdigest())
                if len(acc['samples']) < 2 and len(_canon(case)) < 3000:
                    acc['samples'].append(case)
            for l in ctx._labels:
                acc['labels'][l] = acc['labels'].get(l, 0) + 1
            for key in ctx._known:
                acc['known'][key] = acc['known'].get(key, 0) + 1
    return ctx


def run_shard(part, pid, n, seed, shard, budget):
    """Returns a dict; `failure` holds the smallest failing case found."""
    import hypothesis as hy
    acc = dict(part=part.name, evaluations=0, hashes=set(), samples=[], labels={}, known={}, failure=None,
               error=None, out_of_time=False)
    t0 = time.time()
    shrink_until = [None]

    def judge(case):
        now = time.time()
        if shrink_until[0] is None:
            if now - t0 > budget:
                acc['out_of_time'] = True
                raise _OutOfTime()
        elif now > shrink_until[0]:
            raise _OutOfTime()
        try:
            run_case(part, case, seed, acc)
        except Violation as v:
            size = len(_canon(case))
            if acc['failure'] is None or size <= acc['failure'][2]:
                acc['failure'] = (case, str(v), size)
            if shrink_until[0] is None:
                shrink_until[0] = time.time() + 25
            raise

    try:
        if part.exhaustive is not None:
            for case in part.exhaustive()[shard::part.shards]:
                judge(case)
            return acc
        h = int.from_bytes(hashlib.blake2b(f'{pid}/{part.name}/{seed}/{shard}'.encode(), digest_size=8).digest(), 'big')
        test = hy.settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                           print_blob=False, suppress_health_check=list(hy.HealthCheck),
                           phases=(hy.Phase.generate, hy.Phase.target, hy.Phase.shrink))(
            hy.seed(h)(hy.given(part.strategy)(lambda case: judge(case))))
        with quiet():
            test()
    except (Violation, _OutOfTime):
        pass
    except BaseException as e:  # noqa: BLE001
        if acc['failure'] is None:  # (else: a flaky or grouped report of a failure already recorded)
            acc['error'] = ''.join(traceback.format_exception(e))
    return acc


_JOB = {}


def _worker(job):
    name, n, seed, shard, budget = job
    part = next(p for p in _JOB['mod'].PARTS if p.name == name)
    return run_shard(part, _JOB['mod'].PROPERTY, n, seed, shard, budget)


# ---------------------------------------------------------------- known findings

def known_findings(pid):
    """Lines `finding: property=<id> key=<key> <what fails>`; `fixed:` lines suppress nothing."""
    out = {}
    path = os.path.join(boot.HERE, 'known_findings.txt')
    if os.path.exists(path):
        for ln in open(path):
            w = ln.split()
            if len(w) > 2 and w[0] == 'finding:' and w[1] == 'property=' + pid and w[2].startswith('key='):
                out[w[2][4:]] = ' '.join(w[3:])
    return out


# ---------------------------------------------------------------- the whole check

def main(mod, tier, seed, replay=None):
    pid = mod.PROPERTY
    boot.load()
    if replay:
        rec = json.load(open(replay))
        part = next(p for p in mod.PARTS if p.name == rec['part'])
        try:
            run_case(part, rec['case'], rec.get('seed', seed))
        except Violation as v:
            print(f'VIOLATION property={pid} replay={replay}')
            print('  ' + str(v))
            return 1
        print(f'{pid}: the recorded case passes')
        return 0

    t0 = time.time()
    budget = 150 if tier == 'quick' else 3000
    jobs = []
    for p in mod.PARTS:
        shards = p.shards if tier == 'quick' or p.exhaustive else 8
        n = p.quick * QUICK_SCALE if tier == 'quick' else p.thorough
        for s in range(shards):
            jobs.append((p.name, max(1, -(-n // shards)), seed, s, budget))
    _JOB['mod'] = mod
    jobs_n = min(len(jobs), max(1, min(8, os.cpu_count() or 1)))
    if jobs_n > 1 and not os.environ.get('VERIF_SERIAL'):
        with multiprocessing.get_context('fork').Pool(jobs_n) as pool:
            res = pool.map(_worker, jobs, chunksize=1)
    else:
        res = [_worker(j) for j in jobs]

    parts = {}
    for r in res:
        a = parts.setdefault(r['part'], dict(evaluations=0, hashes=set(), samples=[], labels={}, known={}))
        a['evaluations'] += r['evaluations']
        a['hashes'] |= r['hashes']
        a['samples'] += r['samples'][: max(0, 2 - len(a['samples']))]
        for f in ('labels', 'known'):
            for k, v in r[f].items():
                a[f][k] = a[f].get(k, 0) + v

    listed = known_findings(pid)
    failures = [r for r in res if r['failure']]
    errors = [r for r in res if r['error']]
    seen = {}
    for a in parts.values():
        for k, v in a['known'].items():
            seen[k] = seen.get(k, 0) + v
    unlisted = [k for k in seen if k not in listed]

    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - t0, 2),
              coverage=dict(
                  evaluations=sum(a['evaluations'] for a in parts.values()),
                  distinct_nontrivial=sum(len(a['hashes']) for a in parts.values()),
                  rule=mod.RULE + (SHARED if hasattr(mod, 'also') else ''),
                  samples=[dict(part=n, case=c) for n, a in parts.items() for c in a['samples'][:1]][:6],
                  parts={n: dict(evaluations=a['evaluations'], distinct_nontrivial=len(a['hashes']),
                                 labels=dict(sorted(a['labels'].items())), known_finding_cases=a['known'])
                         for n, a in parts.items()},
                  out_of_time=[r['part'] for r in res if r['out_of_time']],
                  violations=len(failures)))
    os.makedirs(os.path.join(boot.HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(boot.HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for k in sorted(listed):
        if seen.get(k):
            print(f'KNOWN-FINDING: property={pid} {k}: {listed[k]}')
    if failures or unlisted:
        if failures:
            r = min(failures, key=lambda r: r['failure'][2])
            case, msg, _ = r['failure']
            name = r['part']
        else:
            msg, case, name = f'deviation {unlisted[0]} is not a listed finding', None, '?'
        d = os.path.join(boot.HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{pid}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, part=name, case=case, message=msg, seed=seed), f, indent=1)
        print(f'VIOLATION property={pid} replay={path}')
        print('  part %s: %s' % (name, msg))
        return 1
    if errors:
        print(f'{pid}: error in the check itself (part {errors[0]["part"]})', file=sys.stderr)
        print(errors[0]['error'], file=sys.stderr)
        return 2
    c = ev['coverage']
    print(f'{pid}: held on {c["evaluations"]} cases ({c["distinct_nontrivial"]} distinct non-trivial), {ev["wall_s"]} s')
    return 0
