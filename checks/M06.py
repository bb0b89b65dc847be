"""Isotherm depths in the plate model."""
import numpy as np
from hypothesis import strategies as st

from checks.M04 import DEF, params
from vh import also, refs, strat as S
from vh.core import Part, call, need

PROPERTY = 'M06'
RULE = ('A case is a list of isotherms, ages or distances, a depth grid and parameters; the oracle is an independent plate field '
        'on that grid: the returned depth must be a grid point and no other may be closer to the isotherm. Non-trivial: two '
        'isotherms, two ages, and a depth grid off its default.')


@st.composite
def cases(draw):
    time = draw(st.sampled_from([None, True, False, True]))
    x = S.dec(0, 200, 1) if time else S.dec(-4e6, 4e6, 0)
    return dict(x=draw(st.lists(x, min_size=1, max_size=5)), T=draw(st.lists(st.one_of(S.dec(1, 1400, 0), st.sampled_from([0., 1350., 700., 1000., 2000., -10.])), min_size=1, max_size=5)), time=time,
                p=draw(params(plate=True)), minz=draw(st.sampled_from([None, 0, 0., 500., 20e3, 50., 100, 130.])), maxz=draw(st.sampled_from([None, 100e3, 50e3, 130e3, 30100.])), zsp=draw(st.sampled_from([None, 100., 1000., 330., 2500])))


def run(c, ctx):
    from shipgrav.grav import therm_Z_plate
    p = dict(DEF, zL0=100e3)
    p.update(c['p'])
    kw = dict(c['p'])
    g = dict(minz=0, maxz=100e3, zsp=100.)
    for k in ('minz', 'maxz', 'zsp'):
        if c[k] is not None:
            kw[k] = g[k] = c[k]
    if c['time'] is not None:
        kw['time'] = c['time']
    x, iso = np.array(c['x']), np.array(c['T'])
    Z = np.asarray(call(therm_Z_plate, x.copy(), iso.copy(), **kw), float)
    need(Z.shape == (len(iso), len(x)), '%d isotherms, %d ages give shape %s', len(iso), len(x), Z.shape)
    grid = g['minz'] + g['zsp'] * np.arange(int(np.ceil((g['maxz'] - g['minz']) / g['zsp'])) + 2)
    grid = grid[grid < g['maxz']]
    Tg, _ = refs.plate(x, grid, p['u'], p['zL0'], p['Tm'], bool(c['time']), p['rhom'], p['rhow'], p['a'], p['k'])
    for i in range(len(iso)):
        for j in range(len(x)):
            n = np.abs(grid - Z[i, j]).argmin()
            need(abs(grid[n] - Z[i, j]) <= 1e-6, 'depth %r is not on the grid %s..%s by %s', Z[i, j], grid[0], grid[-1], g['zsp'])
            d = np.abs(Tg[:, j] - iso[i])
            need(d[n] <= d.min() + 1e-9 * p['Tm'], 'isotherm %s at %s: depth %s is %.6f K away, %s is %.6f K away (%s)', iso[i], x[j], Z[i, j], d[n], grid[d.argmin()], d.min(), kw)
    ctx.label('ages' if c['time'] else 'distances', *[k for k in kw])
    ctx.nontrivial(len(set(c['T'])) > 1 and len(set(c['x'])) > 1 and any(c[k] is not None for k in ('minz', 'maxz', 'zsp')))


@st.composite
def long_cases(draw):
    return dict(seed=draw(S.seeds), nx=draw(st.sampled_from([40, 150])), nT=draw(st.sampled_from([1, 12, 27])), time=draw(st.sampled_from([None, True, False])), p=draw(params(plate=True)), minz=draw(st.sampled_from([None, 0., 500.])),
                maxz=draw(st.sampled_from([None, 50e3, 130e3])), zsp=draw(st.sampled_from([None, 100., 250., 45.])))


def long_run(c, ctx):
    rng = np.random.default_rng(c['seed'])
    x = rng.uniform(0, 200, c['nx']) if c['time'] else rng.uniform(-4e6, 4e6, c['nx'])
    run(dict(c, x=x.tolist(), T=(np.arange(c['nT']) * 50. + 25).tolist()), ctx)


PARTS = [Part('large sets', long_cases(), long_run, quick=16, thorough=400, shards=4),
         Part('isotherms', cases(), run, quick=1000, thorough=20000, shards=8)] + also.parts(PROPERTY)
