"""Reference models of the corrections and gravity models, written from the literature.

They share no code with the library and, where it was possible, take another road to the same number: vectors in space
instead of spherical trigonometry (tide), automatic differentiation of a position vector instead of Harlan's expanded terms
(Eotvos), complex-step differentiation of ECEF coordinates (velocities), closed-form periodic kernels instead of FFTs.
"""
import math
from datetime import datetime, timedelta, timezone

import numpy as np

# ------------------------------------------------------------------ tide (Longman 1959)

MU, MOON, SUN = 6.673e-8, 7.3537e25, 1.993e33
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
# noon of 31 December 1899 is 25568.5 days before 1970-01-01 00:00
NOON1899 = -25567.5 * 86400.


def _rx(a, v):
    c, s = np.cos(a), np.sin(a)
    return np.array([v[0], c * v[1] - s * v[2], s * v[1] + c * v[2]])


def _rz(a, v):
    c, s = np.cos(a), np.sin(a)
    return np.array([c * v[0] - s * v[1], s * v[0] + c * v[1], v[2]])


def tide(lon, lat, sec, alt):
    """Lunar and solar tide in mGal at one place, sec = posix seconds (UTC)."""
    T = (sec - NOON1899) / 86400. / 36525.
    hours = (sec % 86400.) / 3600.
    s = 4.720023434 + 8399.709299 * T + 4.40696e-5 * T ** 2
    p = 5.835124713 + 71.01800936 * T - 1.80545e-4 * T ** 2 - 2.1817e-7 * T ** 3
    h = 4.88162792 + 628.3319509 * T + 5.27962e-6 * T ** 2
    N = 4.523588564 - 33.75715303 * T + 3.6749e-5 * T ** 2
    p1 = 4.908229461 + 0.03000526416 * T + 7.902463e-6 * T ** 2
    e1 = 0.01675104 - 4.18e-5 * T - 1.26e-7 * T ** 2
    e, m, i, w = 0.05490, 0.074804, 0.08979719, math.radians(23.452)
    # right ascension of the meridian of the place: mean sun plus hour angle
    ra = h + math.radians(15. * (hours - 12.) + lon)
    la = math.radians(lat)
    place = np.array([math.cos(la) * math.cos(ra), math.cos(la) * math.sin(ra), math.sin(la)])
    # moon: longitude in its orbit with elliptic, evection and variation terms, put into the equatorial frame
    ll = s + 2 * e * math.sin(s - p) + 1.25 * e * e * math.sin(2 * (s - p)) + 3.75 * m * e * math.sin(s - 2 * h + p) \
        + 1.375 * m * m * math.sin(2 * (s - h))
    u = ll - N
    moon = _rx(w, _rz(N, _rx(i, np.array([math.cos(u), math.sin(u), 0.]))))
    ls = h + 2 * e1 * math.sin(h - p1)
    sun = _rx(w, np.array([math.cos(ls), math.sin(ls), 0.]))
    ct, cf = float(place @ moon), float(place @ sun)
    r = 6.378270e8 / math.sqrt(1 + 0.006738 * math.sin(la) ** 2) + 100. * alt
    c, c1 = 3.84402e10, 1.495e13
    ap, ap1 = 1 / (c * (1 - e * e)), 1 / (c1 * (1 - e1 * e1))
    inv_d = 1 / c + ap * (e * math.cos(s - p) + e * e * math.cos(2 * (s - p)) + 1.875 * m * e * math.cos(s - 2 * h + p)
                          + m * m * math.cos(2 * (s - h)))
    inv_D = 1 / c1 + ap1 * e1 * math.cos(h - p1)
    gm = MU * MOON * r * inv_d ** 3 * (3 * ct ** 2 - 1) + 1.5 * MU * MOON * r * r * inv_d ** 4 * (5 * ct ** 3 - 3 * ct)
    gs = MU * SUN * r * inv_D ** 3 * (3 * cf ** 2 - 1)
    love = 1 + 0.612 - 1.5 * 0.303
    return gm * 1e3 * love, gs * 1e3 * love


def tide_meeus(lon, lat, sec, alt):
    """The same attraction from the low-precision Almanac positions of sun and moon: good to a few percent."""
    d = sec / 86400. - 10957.5  # days from J2000
    T = d / 36525.
    R = math.radians
    lam = R(218.32 + 481267.881 * T + 6.29 * math.sin(R(135.0 + 477198.87 * T)) - 1.27 * math.sin(R(259.3 - 413335.36 * T))
            + 0.66 * math.sin(R(235.7 + 890534.22 * T)) + 0.21 * math.sin(R(269.9 + 954397.74 * T))
            - 0.19 * math.sin(R(357.5 + 35999.05 * T)) - 0.11 * math.sin(R(186.5 + 966404.03 * T)))
    bet = R(5.13 * math.sin(R(93.3 + 483202.02 * T)) + 0.28 * math.sin(R(228.2 + 960400.89 * T))
            - 0.28 * math.sin(R(318.3 + 6003.15 * T)) - 0.17 * math.sin(R(217.6 - 407332.21 * T)))
    par = R(0.9508 + 0.0518 * math.cos(R(135.0 + 477198.87 * T)) + 0.0095 * math.cos(R(259.3 - 413335.36 * T))
            + 0.0078 * math.cos(R(235.7 + 890534.22 * T)) + 0.0028 * math.cos(R(269.9 + 954397.74 * T)))
    dm = 6378137. / math.sin(par)
    g = R(357.529 + 0.98560028 * d)
    q = 280.459 + 0.98564736 * d
    ls = R(q + 1.915 * math.sin(g) + 0.020 * math.sin(2 * g))
    ds = 1.495978707e11 * (1.00014 - 0.01671 * math.cos(g) - 0.00014 * math.cos(2 * g))
    w = R(23.439 - 3.6e-7 * d)
    moon = _rx(w, np.array([math.cos(bet) * math.cos(lam), math.cos(bet) * math.sin(lam), math.sin(bet)]))
    sun = _rx(w, np.array([math.cos(ls), math.sin(ls), 0.]))
    gmst = (18.697374558 + 24.06570982441908 * d) % 24.
    ra, la = R(15. * gmst + lon), R(lat)
    place = np.array([math.cos(la) * math.cos(ra), math.cos(la) * math.sin(ra), math.sin(la)])
    r = 6378137. * (1 - math.sin(la) ** 2 / 298.257) + alt
    ct, cf = float(place @ moon), float(place @ sun)
    gm = 4.9028e12 * r / dm ** 3 * (3 * ct ** 2 - 1) + 1.5 * 4.9028e12 * r * r / dm ** 4 * (5 * ct ** 3 - 3 * ct)
    gs = 1.32712e20 * r / ds ** 3 * (3 * cf ** 2 - 1)
    return gm * 1e5 * 1.1575, gs * 1e5 * 1.1575


# ------------------------------------------------------------------ normal gravity, free air

def normal_gravity(lat):
    """Somigliana's formula with the WGS84 axes and gravity at the equator and the poles (mGal)."""
    a, b, ge, gp = 6378137.0, 6356752.3142, 978032.53359, 983218.49378
    s2 = np.sin(np.radians(np.asarray(lat, float))) ** 2
    return (a * ge * (1 - s2) + b * gp * s2) / np.sqrt(a * a * (1 - s2) + b * b * s2)


def free_air(lat, h, water=False):
    s2 = (1 - np.cos(2 * np.radians(np.asarray(lat, float)))) / 2
    return 7.2125e-8 * np.asarray(h, float) ** 2 - ((0.22242 if water else 0.3087691) - 0.0004398 * s2) * h


# ------------------------------------------------------------------ motion over the ellipsoid

WA, WF = 6378137.0, 1 / 298.257223563
WE2 = WF * (2 - WF)
OMEGA = 0.00007292115


def ecef(lat, lon, h=0.):
    n = WA / np.sqrt(1 - WE2 * np.sin(lat) ** 2)
    return np.array([(n + h) * np.cos(lat) * np.cos(lon), (n + h) * np.cos(lat) * np.sin(lon), (n * (1 - WE2) + h) * np.sin(lat)])


def velocity_NE(lat, lon, dlat, dlon):
    """North and east velocity from angles (rad) and their rates, by complex-step differentiation of the position."""
    e = 1e-30
    v = np.imag(ecef(lat + 1j * e * dlat, lon + 1j * e * dlon)) / e
    north = np.array([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)])
    east = np.array([-np.sin(lon), np.cos(lon), 0 * lon])
    return (v * north).sum(axis=0), (v * east).sum(axis=0)


class Jet:
    """Taylor polynomials x0 + x1 t + x2 t^2 / 2: derivatives of a composed position without writing them down."""

    def __init__(self, x0, x1=0., x2=0.):
        self.v = (x0, x1, x2)

    @staticmethod
    def of(x):
        return x if isinstance(x, Jet) else Jet(x)

    def __add__(self, o):
        o = Jet.of(o)
        return Jet(*(a + b for a, b in zip(self.v, o.v)))

    __radd__ = __add__

    def __neg__(self):
        return Jet(*(-a for a in self.v))

    def __sub__(self, o):
        return self + (-Jet.of(o))

    def __rsub__(self, o):
        return Jet.of(o) - self

    def __mul__(self, o):
        a, b = self.v, Jet.of(o).v
        return Jet(a[0] * b[0], a[1] * b[0] + a[0] * b[1], a[2] * b[0] + 2 * a[1] * b[1] + a[0] * b[2])

    __rmul__ = __mul__

    def f(self, f0, f1, f2):
        _, x1, x2 = self.v
        return Jet(f0, f1 * x1, f2 * x1 * x1 + f1 * x2)


def jsin(x):
    return x.f(np.sin(x.v[0]), np.cos(x.v[0]), -np.sin(x.v[0]))


def jcos(x):
    return x.f(np.cos(x.v[0]), -np.sin(x.v[0]), -np.cos(x.v[0]))


def jpow(x, p):
    return x.f(x.v[0] ** p, p * x.v[0] ** (p - 1), p * (p - 1) * x.v[0] ** (p - 2))


def inertial_acceleration_down(lat, lon, h, exact):
    """Downward inertial acceleration (m/s2) of a point with geodetic coordinates given as Jets in time, and that of a
    point at rest relative to the earth there.  exact: WGS84 geodesy; else Harlan's first-order flattening."""
    lam = lon + Jet(0 * lon.v[0], OMEGA, 0.)
    if exact:
        n = WA * jpow(1 - WE2 * jsin(lat) * jsin(lat), -.5)
        rho, z = (n + h) * jcos(lat), (n * (1 - WE2) + h) * jsin(lat)
    else:
        a, b = 6378137.0, 6356752.3142
        f = (a - b) / a
        r = a * (1 - f * jsin(lat) * jsin(lat))
        dd = f * jsin(2 * lat)  # deviation of the normal from the radius
        # position = r along the radius + h along the normal; in the meridian plane
        geoc = lat - dd
        rho, z = r * jcos(geoc) + h * jcos(lat), r * jsin(geoc) + h * jsin(lat)
    x, y = rho * jcos(lam), rho * jsin(lam)
    la, lo = lat.v[0], lam.v[0]
    up = np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
    acc = np.array([x.v[2], y.v[2], z.v[2]])
    rest = -OMEGA ** 2 * np.array([x.v[0], y.v[0], 0 * x.v[0]])
    return -(acc * up).sum(axis=0), -(rest * up).sum(axis=0)


def eotvos(lat, lon, ht, samp, exact=False):
    """mGal; derivatives of the sampled degrees / metres by central differences; ends repeated."""
    def jet(x):
        x = np.asarray(x, float)
        return Jet(x[1:-1], (x[2:] - x[:-2]) * samp / 2, (x[2:] - 2 * x[1:-1] + x[:-2]) * samp ** 2)
    d, rest = inertial_acceleration_down(jet(np.radians(lat)), jet(np.radians(lon)), jet(ht), exact)
    e = (d - rest) * 1e5
    return np.concatenate([e[:1], e, e[-1:]])


# ------------------------------------------------------------------ cross coupling

TAY = np.array([1 / 1260, -5 / 504, 5 / 84, -5 / 21, 5 / 6, 0, -5 / 6, 5 / 21, -5 / 84, 5 / 504, -1 / 1260])


def ccp_filter():
    n = np.arange(200) - 99.5
    w = np.sinc(n / 200.) * (0.42 + 0.5 * np.cos(2 * np.pi * n / 199.) + 0.08 * np.cos(4 * np.pi * n / 199.))
    return w / w.sum()


def ccp_process(x):
    """Twice differentiated, filtered and trimmed segment."""
    x = np.asarray(x, float)
    d2 = np.convolve(x, np.convolve(TAY, TAY), 'valid')
    y = np.convolve(d2, ccp_filter())[:len(d2)]
    return y[200:-200]


# ------------------------------------------------------------------ thermal models

SECYR = 365.25 * 86400.
erf = np.vectorize(math.erf, otypes=[float])


def age_seconds(x, u, time):
    x = np.asarray(x, float)
    return x * 1e6 * SECYR if time else np.abs(x) / u * SECYR


def halfspace(x, z, u, Tm, time, rhom, rhow, a, k):
    t = age_seconds(x, u, time)
    with np.errstate(all='ignore'):
        T = np.array([[Tm * math.erf(zz / (2 * math.sqrt(k * tt))) if tt > 0 else (Tm if zz > 0 else math.nan) for tt in t] for zz in z])
    W = 2 * rhom * a * Tm / (rhom - rhow) * np.sqrt(k * t / np.pi)
    return T, W


def plate(x, z, u, zL, Tm, time, rhom, rhow, a, k, modes=10, wmodes=(1, 3, 5)):
    t = age_seconds(x, u, time)
    z = np.asarray(z, float)
    tau = np.pi ** 2 * k * t / zL ** 2
    s = np.add.outer(z / zL, 0 * t)
    for n in range(1, modes + 1):
        s = s + 2 / (n * np.pi) * np.outer(np.sin(n * np.pi * z / zL), np.exp(-n * n * tau))
    T = Tm * s
    T[z > zL] = Tm
    W = rhom * a * Tm * zL / (rhom - rhow) * (.5 - sum(4 / (n * np.pi) ** 2 * np.exp(-n * n * tau) for n in wmodes))
    return T, W


def when(us):
    return EPOCH + timedelta(microseconds=us)
