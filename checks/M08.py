"""Recovered gravity."""
import numpy as np
from hypothesis import strategies as st

from checks import M07
from vh import also
from vh.core import Part, Violation, call, need, refuses

PROPERTY = 'M08'
RULE = ('The cases of M07 with back-calculation on; oracles are the low-passed residual built from its known harmonics, and the '
        'thickness without back-calculation. Non-trivial: some harmonic passes and some of the residual is not constant.')


def run(c, ctx):
    from shipgrav.grav import crustal_thickness_2D
    f, parts = M07.residual(c)
    a, kw = M07.args(c, f)
    r = call(crustal_thickness_2D, *a, back=True, **kw)
    need(isinstance(r, (tuple, list)) and len(r) == 2, 'back=True returns %s', type(r))
    th, g = M07.real(c, r[0], 'thickness'), M07.real(c, r[1], 'gravity')
    s = M07.scale(c, f)
    low = sum([p * M07.weight(c, k) for k, p in parts], np.zeros(f.shape)) + c['unit'] * c['mean']
    want = M07.thickness(c, parts)
    amp = np.abs(f).max() + 1e-14
    dx, dy = c['dx'], c['dy'] or 1.
    known = False
    # exp(kz) of the rounding noise is undone in the gravity, not in the thickness
    for name, got, w, tol in (('recovered gravity', g, low, 1e-10 * amp * np.exp(0)), ('thickness with back-calculation', th, want, 1e-9 * s)):
        need(np.abs(got.imag).max() <= tol, '%s has imaginary parts up to %g', name, np.abs(got.imag).max())
        if np.abs(got.real - w).max() <= tol:
            continue
        if np.abs(got.real - np.roll(w, -1, axis=(0, 1))).max() <= tol:
            known = True
            continue
        d = np.abs(got.real - w)
        n = np.unravel_index(d.argmax(), d.shape)
        raise Violation('%s at point %s of %s is %.9g, should be %.9g' % (name, n, d.shape, got.real[n], w[n]))
    (a2,), kw2 = M07.args(dict(c, zdown=c['zdown'] / 2, rho=c['rho'] * 1.7), f)
    g2 = M07.real(c, call(crustal_thickness_2D, a2, back=True, **kw2)[1], 'gravity')
    need(np.abs(g2 - g).max() <= 1e-9 * amp, 'the recovered gravity depends on depth or density')
    if known:
        ctx.known('back-shifted-by-one')
    ctx.label('grid' if c['ny'] > 1 else 'profile', c['kind'])
    ctx.nontrivial(np.ptp(low) > 1e-6 * amp)


@st.composite
def bad(draw):
    c = draw(M07.setups())
    c['wlarge'], c['wsmall'] = c['wsmall'], draw(st.sampled_from([c['wlarge'], c['wsmall']]))
    c['back'] = draw(st.booleans())
    return c


def refuse(c, ctx):
    from shipgrav.grav import crustal_thickness_2D
    f, _ = M07.residual(c)
    a, kw = M07.args(c, f)
    refuses(crustal_thickness_2D, AssertionError, *a, back=c['back'], **kw)
    ctx.nontrivial()


PARTS = [Part('whole maps', M07.maps(), run, quick=8, thorough=150, shards=4), Part('large', M07.large(), run, quick=32, thorough=600, shards=8), Part('residuals', M07.setups(), run, quick=1600, thorough=30000, shards=8), Part('cutoffs in the wrong order', bad(), refuse, quick=100, thorough=1000, shards=1)] + also.parts(PROPERTY)
