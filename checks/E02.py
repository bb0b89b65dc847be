"""No mutation, no memory."""
import copy
import os
import random
import sys
import threading
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vh import formats as F, gravfiles as GF, strat as S
from vh.core import Part, Violation, call, need, quiet

PROPERTY = 'E02'
RULE = ('A case is a pool of calls (each public function with two or three sets of arguments of the same shape) and a history of '
        'calls from the pool, some with their results scribbled over afterwards. The oracle runs each call alone in freshly imported '
        'modules; every call of the history must give that result (to 1e-9 of its size) and leave its arguments and files as they were. '
        'Non-trivial: a call is repeated with others in between.')
MODS = ('io', 'nav', 'grav', 'utils')


def fresh():
    import importlib
    for m in [m for m in sys.modules if m == 'shipgrav' or m.startswith('shipgrav.')]:
        del sys.modules[m]
    return {m: importlib.import_module('shipgrav.' + m) for m in MODS}


def nav_fixes(rng, n, ship):
    t0 = int(rng.integers(12000, 20000)) * 86_400_000_000 + int(rng.integers(0, 86000)) * 1_000_000
    la, lo = int(rng.integers(-80, 80)), int(rng.choice([0, 40, -120, 179, -179]))
    return [dict(t=t0 + i * 1_000_000, lat=la * F.DEG + i * 6000, lon=lo * F.DEG + i * 600000 * (1 if lo != 179 else 1), digits=2) for i in range(n)]


def _clean(x):
    return np.asarray(x, float)


READERS = ('nav', 'bgm', 'rgs', 'laptop', 'raw', 'other', 'ini')


def build(spec, ctx, tag):
    """(module, function, args, kwargs, paths) of one call: variants of readers read other files, variants of computations
    differ from variant 0 in one argument only."""
    kind, seed, var = spec
    if kind in READERS:
        return base(kind, seed, var, ctx, tag)
    m, fn, args, kw, ps = base(kind, seed, 0, ctx, tag)
    places = [('a', i) for i, v in enumerate(args) if tweakable(v, kind)] + [('k', k) for k, v in kw.items() if tweakable(v, kind)]
    if var:
        where, k = places[(var - 1) // 2 % len(places)]
        if where == 'a':
            args = tuple(tweak(v, var) if i == k else v for i, v in enumerate(args))
        else:
            kw = dict(kw, **{k: tweak(kw[k], var)})
    return m, fn, args, kw, ps


def tweakable(v, kind):
    if isinstance(v, int) and not isinstance(v, bool):
        return kind in ('gauss', 'bits', 'diff')  # where any number will do
    return isinstance(v, (bool, float, list)) or (isinstance(v, np.ndarray) and v.dtype.kind == 'f')


def tweak(v, var):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1 + var % 2
    if isinstance(v, float):
        return v * 1.1
    if isinstance(v, list):  # instants
        return [v[-1]] + v[1:]
    v = v * (1.01 if var % 2 else 1.)
    if var % 2 == 0:
        v[len(v) // 2] *= 1.02
    return v


def base(kind, seed, var, ctx, tag):
    rng = np.random.default_rng([seed, var])
    n = 12 + seed % 5
    a = lambda *s: rng.normal(size=s or n)
    order = (0, 1) if seed % 2 else (1, 0)
    w = lambda name, text: ctx.write('%s_%s' % (tag, name), text)
    if kind == 'nav':
        ship = F.NAV_SHIPS[seed % 7]
        ps = [w('nav%d' % i, F.nav_file(ship, nav_fixes(rng, 5, ship))) for i in order]
        return 'io', 'read_nav', (ship, ps), dict(progressbar=False), ps
    if kind == 'bgm':
        c = dict(ship=GF.BGM[seed % 4], t=[int(rng.integers(10 ** 15, 2 * 10 ** 15)) // 1000 * 1000 for _ in range(4)], counts=[int(v) for v in rng.integers(0, 99999, 4)], eol='\n')
        ps = [w('bgm%d' % i, GF.bgm_text(dict(c, t=[t + i * 7000000 for t in c['t']]))) for i in order]
        kw = dict(scale=float(rng.integers(1, 9))) if seed % 3 == 0 else {}
        return 'io', 'read_bgm_raw', (ps, c['ship']), dict(progressbar=False, **kw), ps
    if kind == 'rgs':
        c = dict(t=[10 ** 15 + int(v) * 1000 for v in rng.integers(0, 10 ** 9, 3)], eol='\n', recs=[dict(grav='%.3f' % v, lat='1.5', lon='2.5', junk=list(range(11))) for v in rng.uniform(976000, 984000, 3)])
        ps = [w('rgs%d' % i, GF.rgs_text(dict(c, t=[t + i * 7000000 for t in c['t']]))) for i in order]
        return 'io', 'read_bgm_rgs', (ps, 'Atlantis'), dict(progressbar=False), ps
    if kind in ('laptop', 'raw'):
        if kind == 'laptop':
            ship = GF.LAPTOP[seed % 8]
            recs = []
            for i in range(3):
                r = {f: float(v) for f, v in zip(F.LAPTOP, rng.normal(size=26) * 50)}
                r.update(status=330, checksum=5, numline=i)
                recs.append(r)
            ps = [w('laptop%d' % k, ('dgsdata 2023:001:00:00:00.0000 1,2,3\n' if ship == 'Langseth' and seed % 3 else '') + F.laptop_file(ship, [F.laptop_line(ship, r, 10 ** 15 + (9 * k + i) * 10 ** 6, 10 ** 15 + (9 * k + i) * 10 ** 6) for i, r in enumerate(recs[k:])])) for k in order]
            return 'io', 'read_dgs_laptop', (ps, ship), dict(progressbar=False), ps
        ship = GF.RAWSHIPS[seed % 6]
        lines = []
        for i in range(3):
            r = {f: int(v) for f, v in zip(F.RAW, rng.integers(-10 ** 6, 10 ** 6, len(F.RAW)))}
            r.update(status=330, clock=123456 + i, num=i, speed=3., course=4.)
            lines.append(F.raw_line(ship, r, 10 ** 15 + i * 10 ** 6, 10 ** 15 + i * 10 ** 6, bool(seed % 2)))
        ps = [w('raw%d' % k, F.raw_file(ship, lines[k:])) for k in order]
        return 'io', 'read_dgs_raw', (ps, ship), dict(progressbar=False, scale_ccp=bool(var % 2)), ps
    if kind == 'other':
        cols = [['A', 'B', 'C'], ['A', 'D', 'B'], ['E', 'A', 'C']][var % 3]
        y = w('feed.yaml', "X:\n  format:\n    PASHR: '$PASHR,%s*{CheckSum:x}'\n    HDT: '$HDT,{%s:f},T'\n  fields:\n" % (','.join('{%s:f}' % k for k in cols), cols[1])
              + ''.join('    %s:\n      units: u%s%d\n      description: d\n' % (k, k, seed) for k in cols[:1 + seed % 3]))
        d = w('feed.txt', ''.join('$PASHR,%.2f,%.2f,%.2f*11\n$OTHER,1\n$HDT,%.1f,T\n' % tuple(v) for v in rng.normal(size=(4, 4))))
        return 'io', 'read_other_stuff', (y, d, 'HDT' if seed % 4 == 3 else 'PASHR'), {}, [y, d]
    if kind == 'ini':
        p = w('m.ini', '[Sensor]\ngain = %.3f // c\nname = AT1M %d\nflag = TRUE\n' % (rng.normal(), var))
        return 'utils', 'clean_ini_to_toml', (p,), {}, [p]
    if kind == 'gauss':
        return 'utils', 'gaussian_filter', (a(60), 5 + seed % 9), {}, []
    if kind == 'bits':
        return 'utils', 'decode_dgs_status_bits', (int(rng.integers(0, 65530)),), {}, []
    if kind == 'EN':
        return 'nav', 'latlon_to_EN', (np.cumsum(a(30)) * 1e-4 + 20, np.cumsum(a(30)) * 1e-4 - 40), dict(freq=1.), []
    if kind == 'course':
        return 'nav', 'ENvel_to_course_heading', (a(), a()), {}, []
    if kind == 'rotate':
        return 'nav', 'rotate_acceleration_EN_to_cl', (a() * 100, a(), a()), {}, []
    if kind == 'tide':
        return 'grav', 'longman_tide_prediction', (a() * 50, a() * 20, [F.dt(10 ** 15 + int(v) * 1000) for v in rng.integers(0, 10 ** 11, n)]), dict(alt=np.abs(a()) * 10, return_components=bool(seed % 2)), []
    if kind == 'eotvos':
        return 'grav', 'eotvos_full', (np.cumsum(a()) * 1e-4, np.cumsum(a()) * 1e-4 + 30, a(), 1.), {}, []
    if kind == 'fa':
        return 'grav', 'free_air_second_order', (a() * 30, a() * 100), dict(free_water=bool(seed % 2)), []
    if kind == 'wgs':
        return 'grav', 'wgs_grav', (a() * 30,), {}, []
    if kind == 'ccp':
        N = 2002 + seed % 300  # (a changed time in the middle splits the record)
        kw = dict(times=np.arange(N) * 1., samplerate=1.) if seed % 2 else {}
        return 'grav', 'calc_cross_coupling_coefficients', tuple(a(N) for _ in range(6)), kw, []
    if kind == 'diff':
        return 'grav', 'center_diff', (a(), 1 + seed % 2, 2.), {}, []
    if kind == 'up':
        return 'grav', 'up_vecs', (1., np.full(n, 980000.), a() * 1e4, a() * 1e4, np.zeros(n), 240., .7, 200., .6), {}, []
    if kind == 'g1':
        return 'grav', 'grav1d_padded', (np.arange(n) * 1000., a() * 100 - 4000, 0., 1700.), {}, []
    if kind == 'g2':
        return 'grav', 'grav2d_folding', (np.arange(5.), np.arange(4.), 3000 + 50 * a(4, 5), 1., 1.), dict(drho=.6, ifold=bool(seed % 2)), []
    if kind == 'layer':
        return 'grav', 'grav2d_layer_variable_density', (2700 + 50 * a(4, 5), 1., 1.5, 1., 5.), {}, []
    tkw = dict(Tm=1300., time=bool(seed % 2))
    x = np.abs(a()) * (30 if tkw['time'] else 1e5) + .1
    mix = lambda *v: np.array(v)[rng.permutation(len(v))] if seed % 4 > 1 else np.array(v)
    if kind == 'half':
        return 'grav', 'therm_halfspace', (x, mix(100., 2000., 3e4)), tkw, []
    if kind == 'zhalf':
        return 'grav', 'therm_Z_halfspace', (x, 700.), tkw, []
    if kind == 'plate':
        return 'grav', 'therm_plate', (x, mix(100., 2000., 3e4, 2e5)), dict(tkw, zL0=1e5), []
    if kind == 'zplate':
        return 'grav', 'therm_Z_plate', (x[:4], mix(300., 900., 600.)), dict(tkw, zsp=1000., zL0=1e5), []
    if kind == 'crust':
        if seed % 3:
            return 'grav', 'crustal_thickness_2D', (a(20) * 10,), dict(nx=20, dx=2., wlarge=30., wsmall=10., zdown=4., back=bool(seed % 2)), []
        return 'grav', 'crustal_thickness_2D', (a(20) * 10,), dict(nx=5, ny=4, dx=2., dy=3., wlarge=30., wsmall=10., zdown=4., back=bool(seed % 2)), []
    raise KeyError(kind)


KINDS = ['nav', 'bgm', 'rgs', 'laptop', 'raw', 'other', 'ini', 'gauss', 'bits', 'EN', 'course', 'rotate', 'tide', 'eotvos', 'fa', 'wgs', 'ccp', 'diff', 'up', 'g1', 'g2', 'layer', 'half', 'zhalf', 'plate',
         'zplate', 'crust']


def same(x, y):
    if isinstance(x, pd.DataFrame) or isinstance(y, pd.DataFrame):
        return type(x) is type(y) and list(x.columns) == list(y.columns) and x.index.equals(y.index) and all(same(x[c], y[c]) for c in x.columns)
    if isinstance(x, pd.Series) or isinstance(y, pd.Series):
        return type(x) is type(y) and x.index.equals(y.index) and x.dtype == y.dtype and same(x.to_numpy(), y.to_numpy())
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        if type(x) is not type(y) or x.shape != y.shape or x.dtype != y.dtype:
            return False
        if x.dtype.kind in 'fc':  # (linear algebra libraries may round differently from one memory address to the next)
            ok = np.isfinite(x) & np.isfinite(y)
            d = np.abs(np.where(ok, x, 0) - np.where(ok, y, 0))
            return bool(((x == y) | ((x != x) & (y != y)) | (ok & (d <= 1e-9 * np.max(np.abs(np.where(ok, y, 0)), initial=0)))).all())
        if x.dtype.kind == 'O':
            return all(same(p, q) for p, q in zip(x.ravel(), y.ravel()))
        return bool((x == y).all())
    if isinstance(x, (tuple, list)):
        return type(x) is type(y) and len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, dict):
        return isinstance(y, dict) and list(x) == list(y) and all(same(x[k], y[k]) for k in x)
    if hasattr(x, 'params') and hasattr(y, 'params'):
        return same(x.params, y.params)
    if isinstance(x, float) and isinstance(y, float):
        return x == y or (x != x and y != y) or abs(x - y) <= 1e-9 * abs(y)
    if x is None or y is None or x is pd.NaT or y is pd.NaT:
        return x is y
    return type(x) is type(y) and bool(np.all(np.asarray(x, dtype=object) == np.asarray(y, dtype=object)))


def scribble(r):
    """The caller does what it likes with what it got."""
    try:
        if isinstance(r, np.ndarray) and r.flags.writeable and r.dtype.kind in 'fc':
            r[...] = -12345.
        elif isinstance(r, pd.DataFrame):
            for col in list(r.columns):
                if r[col].dtype.kind == 'f':
                    r[col] = -12345.
            r['scribble'] = 1
        elif isinstance(r, dict):
            for k in list(r):
                r[k] = 'scribble'
        elif isinstance(r, (tuple, list)):
            for x in r:
                scribble(x)
    except (ValueError, TypeError):
        pass


@st.composite
def cases(draw):
    if draw(st.booleans()):  # the same function with different arguments of the same shape
        k = draw(st.sampled_from(KINDS))
        s = draw(st.integers(0, 41))
        pool = [[k, s, v] for v in draw(st.lists(st.integers(0, 16), min_size=2, max_size=4, unique=True))]
        if draw(st.booleans()):
            pool.append([draw(st.sampled_from(KINDS)), draw(st.integers(0, 41)), 0])
    else:
        pool = draw(st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 41), st.integers(0, 16)).map(list), min_size=2, max_size=7))
    hist = draw(st.lists(st.tuples(st.integers(0, len(pool) - 1), st.booleans()).map(list), min_size=2, max_size=12))
    return dict(pool=pool, history=hist)


def files(paths):
    return {p: open(p, 'rb').read() for p in paths}


OPTIONS = ('display.precision', 'display.max_rows', 'display.float_format', 'mode.chained_assignment')


def state():
    """What of the process other code relies on."""
    kind, keys, pos, has, gauss = np.random.get_state()
    return dict(folder=os.getcwd(), errors=np.geterr(), random=hash(random.getstate()), numpy_random=(kind, keys.tobytes(), pos, has, gauss), warnings=list(warnings.filters), environment=dict(os.environ),
                pandas=[pd.get_option(o) for o in OPTIONS], printing=np.get_printoptions(), limit=sys.getrecursionlimit(), here=sorted(os.listdir()))


def unchanged(fixed, fn):
    now = state()
    need(now == fixed, '%s changed the state of the process: %s', fn, [k for k in now if now[k] != fixed[k]])


def restore(s):
    """Undo what a broken call did, so that every case starts from the same state."""
    os.chdir(s['folder'])
    np.seterr(**s['errors'])
    os.environ.clear()
    os.environ.update(s['environment'])
    warnings.filters[:] = s['warnings']
    np.set_printoptions(**s['printing'])
    sys.setrecursionlimit(s['limit'])
    for o, v in zip(OPTIONS, s['pandas']):
        pd.set_option(o, v)


def run(c, ctx):
    np.seterr(divide='warn', over='warn', under='ignore', invalid='warn')
    origin = os.getcwd()
    os.makedirs(os.path.join(ctx.dir, 'here'), exist_ok=True)
    os.chdir(os.path.join(ctx.dir, 'here'))  # (a folder that no other process writes to)
    fixed = state()
    try:
        history(c, ctx, fixed)
    finally:
        restore(fixed)
        os.chdir(origin)


def history(c, ctx, fixed):
    calls = [build(s, ctx, str(i)) for i, s in enumerate(c['pool'])]
    used = sorted({i for i, _ in c['history']})
    listing = os.listdir(ctx.dir)
    alone = {}
    for i in used:
        m, fn, a, kw, _ = calls[i]
        alone[i] = copy.deepcopy(call(getattr(fresh()[m], fn), *copy.deepcopy(a), **copy.deepcopy(kw)))
        unchanged(fixed, fn)
    mods = fresh()
    done, kept = [], []
    try:
        for i, wreck in c['history']:
            m, fn, a, kw, paths = calls[i]
            before, content = copy.deepcopy((a, kw)), files(paths)
            r = call(getattr(mods[m], fn), *a, **kw)
            done.append(fn)
            need(same((a, kw), before), '%s changed its arguments', fn)
            need(files(paths) == content, '%s changed its input files', fn)
            need(same(r, alone[i]), '%s after %s gives %s, on its own %s', fn, done[:-1], str(r)[:300], str(alone[i])[:300])
            unchanged(fixed, fn)
            left = {f for f in os.listdir(ctx.dir) if f not in listing and not f.endswith('.toml')}
            need(not left, '%s left files behind: %s', fn, left)
            if not wreck:
                kept.append((i, fn, r, len(done)))
            else:
                scribble(r)
                if not same((a, kw), before):  # (the result shares memory with an argument: hand out new ones)
                    a, kw = before
                    calls[i] = (m, fn, a, kw, paths)
                    kept = [k for k in kept if k[0] != i]
        for i, fn, r, k in kept:
            need(same(r, alone[i]), 'the result of %s changed during later calls (%s)', fn, done[k:])
    finally:
        fresh()
    order = [i for i, _ in c['history']]
    ctx.label(*{c['pool'][i][0] for i in used})
    ctx.nontrivial(any(order[p] in order[:p] and order[p - 1] != order[p] for p in range(1, len(order))))


@st.composite
def crowds(draw):
    kinds = [k for k in KINDS if k != 'ini']  # (which writes the file it names)
    if draw(st.booleans()):
        k = draw(st.sampled_from(kinds))
        pool = [[k, draw(st.integers(0, 41)), v] for v in draw(st.lists(st.integers(0, 16), min_size=2, max_size=4, unique=True))]
    else:
        pool = draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 41), st.integers(0, 16)).map(list), min_size=2, max_size=5))
    return dict(pool=pool, again=draw(st.integers(1, 4)))


def crowd(c, ctx):
    """Calls that run at the same time, each in its thread."""
    calls = [build(s, ctx, str(i)) for i, s in enumerate(c['pool'])]
    mods = fresh()
    alone = [copy.deepcopy(call(getattr(mods[m], fn), *copy.deepcopy(a), **copy.deepcopy(kw))) for m, fn, a, kw, _ in calls]
    start, found = threading.Barrier(len(calls)), [None] * len(calls)

    def work(i):
        m, fn, a, kw, _ = calls[i]
        try:
            start.wait()
            for _ in range(c['again']):
                r = getattr(mods[m], fn)(*a, **kw)
                if not same(r, alone[i]):
                    found[i] = '%s at the same time as %s gives %s, on its own %s' % (fn, [k[1] for k in calls], str(r)[:200], str(alone[i])[:200])
        except Exception as e:  # noqa: BLE001
            found[i] = '%s at the same time as %s raised %r' % (fn, [k[1] for k in calls], e)

    every = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        with quiet():
            threads = [threading.Thread(target=work, args=(i,)) for i in range(len(calls))]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
    finally:
        sys.setswitchinterval(every)
        fresh()
    for f in found:
        need(f is None, '%s', f)
    ctx.label(*{k for k, _, _ in c['pool']})
    ctx.nontrivial(len({k for k, _, _ in c['pool']}) < len(c['pool']))


@st.composite
def frames(draw):
    n = draw(st.integers(1, 6))
    return dict(words=draw(st.lists(st.integers(0, 65535), min_size=n, max_size=n)), bad=draw(st.lists(st.integers(0, n - 1), max_size=3)), seed=draw(S.seeds), n=n)


def exempt(c, ctx):
    """The documented in-place cases do no more than documented, and give the same result on a copy."""
    from shipgrav.grav import up_vecs
    from shipgrav.utils import decode_dgs_status_bits
    rng = np.random.default_rng(c['seed'])
    df = pd.DataFrame(dict(status=c['words'], g=rng.normal(size=c['n'])))
    keep = df.copy(deep=True)
    one = call(decode_dgs_status_bits, df.copy(deep=True))
    two = call(decode_dgs_status_bits, df)
    need(same(one, two) and same(df[['status', 'g']], keep), 'decoding changed the columns it was given')
    acc = rng.normal(size=(2, c['n']))
    on = np.zeros(c['n'])
    for k, i in enumerate(c['bad']):
        if k % 2:
            on[i] = 1.
        else:
            acc[:, i] = np.nan
    g = np.full(c['n'], 9.8)
    ca, la, of, gg = acc[0].copy(), acc[1].copy(), on.copy(), g.copy()
    u = call(up_vecs, 1., gg, ca, la, of, 100., .7, 90., .7)
    good = ~np.isnan(acc[0]) & (on == 0)
    need(np.array_equal(ca[good], acc[0][good]) and np.array_equal(la[good], acc[1][good]), 'good accelerations were changed')
    need(np.array_equal(gg, g) and np.array_equal(of, on), 'gravity or flags were changed')
    v = call(up_vecs, 1., gg, ca, la, of, 100., .7, 90., .7)
    need(np.array_equal(u, v), 'the up-vectors differ when the call is repeated')
    ctx.nontrivial(bool(c['bad']))


PARTS = [Part('histories', cases(), run, quick=400, thorough=8000, shards=8), Part('at the same time', crowds(), crowd, quick=150, thorough=5000, shards=8),
         Part('in-place cases', frames(), exempt, quick=100, thorough=2000, shards=1)]
