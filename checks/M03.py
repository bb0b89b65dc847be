"""Gravity of a layer with varying density."""
import numpy as np
from hypothesis import strategies as st

from vh import also, strat as S
from vh.core import Part, Violation, call, need

PROPERTY = 'M03'
RULE = ('A case is a density grid (even/odd, non-square) with spacings and layer depths; oracles are the slab transfer function by '
        'explicit transform matrices and linearity, additivity, decay, shift and transpose laws. Non-trivial: non-square grid with '
        'at least 3 points each way.')
G = 6.673e-11


@st.composite
def cases(draw, size=st.one_of(st.integers(1, 6), st.integers(2, 14))):
    z1 = draw(st.sampled_from([.1, .5, 1., 2., 5.]))
    return dict(nx=draw(size), ny=draw(size), dx=draw(st.sampled_from([1., .5, 2., 1.3, 10.])), dy=draw(st.sampled_from([1., .5, 2., .9, 7.])), z=[z1, z1 + draw(st.sampled_from([.1, 1., 3., 10., 1e-3, 1e-5]))],
                more=draw(st.sampled_from([.5, 2., 6.])), kind=draw(st.sampled_from(['noise', 'point', 'wave', 'constant', 'one harmonic'])), seed=draw(S.seeds), k=draw(S.dec(-3, 3, 1)),
                roll=draw(st.lists(st.integers(0, 13), min_size=2, max_size=2)))


def dft(n):
    a = np.arange(n)
    return np.exp(-2j * np.pi * np.outer(a, a) / n)


def slab(rho, dx, dy, z1, z2, wrong=False):
    ny, nx = rho.shape

    def wn(n, d):
        a = np.arange(n)
        s = np.where(2 * a <= n, a, a - n)
        if wrong:  # the listed finding: one index too many keeps its positive sign
            s = np.where(a <= n / 2 + 1, a, a - n)
        return 2 * np.pi * s / (n * d)
    K = np.hypot(wn(ny, dy * 1.)[:, None], wn(nx, dx * 1.)[None, :])
    with np.errstate(all='ignore'):
        H = np.where(K == 0, 0, (np.exp(-K * z1) - np.exp(-K * z2)) / K)
    A, B = dft(ny), dft(nx)
    return (A.conj() @ (A @ rho @ B * H) @ B.conj()).real / rho.size * 2 * np.pi * G * 1e5 * 1e3


def run(c, ctx):
    from shipgrav.grav import grav2d_layer_variable_density as layer
    rng = np.random.default_rng(c['seed'])
    ny, nx, dx, dy = c['ny'], c['nx'], c['dx'], c['dy']
    z1, z2 = c['z']
    i, j = np.mgrid[:ny, :nx]
    rho = dict(noise=rng.uniform(2000, 3300, (ny, nx)), point=((i == rng.integers(0, ny)) & (j == rng.integers(0, nx))) * 100., wave=2700 + 50 * np.sin(2 * np.pi * j / nx + 2 * np.pi * i / ny),
               constant=np.full((ny, nx), 2900.), **{'one harmonic': 40 * np.cos(2 * np.pi * rng.integers(0, nx) * j / nx + 2 * np.pi * rng.integers(0, ny) * i / ny + .3)})[c['kind']]
    known = []

    def go(r, a=z1, b=z2, ddx=dx, ddy=dy):
        g = np.asarray(call(layer, r.copy(), ddx, ddy, a, b))
        need(g.shape == r.shape and g.dtype.kind == 'f', 'a %s grid gives %s %s', r.shape, g.shape, g.dtype)
        s = 2 * np.pi * G * 1e8 * (b - a) * (np.abs(r).max() + 1e-3)
        want = slab(r, ddx, ddy, a, b)
        if np.abs(g - want).max() <= 1e-10 * s:
            return g
        if np.abs(g - slab(r, ddx, ddy, a, b, wrong=True)).max() <= 1e-10 * s:
            known.append(1)
            return g
        raise Violation('%d x %d (%s), layer %s-%s km: off by %.3g mGal of %.3g from the slab formula' % (ny, nx, c['kind'], a, b, np.abs(g - want).max(), s))
    g = go(rho)
    sc = 2 * np.pi * G * 1e8 * (z2 + c['more'] - z1) * np.abs(rho).max()

    def same(x, y, what, t=1e-9):
        need(np.abs(x - y).max() <= t * sc, '%s: off by %.3g of %.3g mGal', what, np.abs(x - y).max(), sc)
    need(abs(g.mean()) <= 1e-10 * sc, 'the mean is %g', g.mean())
    o = rng.uniform(-100, 100, (ny, nx))
    same(go(rho + c['k'] * o), g + c['k'] * go(o), 'linearity')
    z3 = z2 + c['more']
    same(g + go(rho, z2, z3), go(rho, z1, z3), 'two stacked layers')
    deep = go(rho, z1 + c['more'], z2 + c['more'])
    need(np.linalg.norm(deep) <= np.linalg.norm(g) * (1 + 1e-9) + 1e-9 * sc, 'the deeper layer pulls harder')
    r = c['roll']
    same(go(np.roll(rho, r, axis=(0, 1))), np.roll(g, r, axis=(0, 1)), 'shifting the density')
    same(go(rho.T.copy(), ddx=dy, ddy=dx), g.T, 'transposing')
    if c['kind'] == 'constant':
        same(g, 0, 'constant density')
    if known:
        ctx.known('index-past-nyquist')
    ctx.label(c['kind'], 'odd' if nx % 2 or ny % 2 else 'even')
    ctx.nontrivial(min(nx, ny) >= 3 and nx != ny)


PARTS = [Part('grids', cases(), run, quick=3000, thorough=24000, shards=8), Part('large grids', cases(st.sampled_from([3, 25, 32, 50, 64, 75])), run, quick=24, thorough=400, shards=8),
         Part('whole maps', cases(st.sampled_from([100, 128, 151, 200])), run, quick=3, thorough=60, shards=4)] + also.parts(PROPERTY)
