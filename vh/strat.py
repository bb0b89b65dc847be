"""Strategies shared by the checks.  All values are JSON-able."""
from hypothesis import strategies as st

DAY = 86_400_000_000
# 2000-01-04 .. 2059-12-31
DAYS = st.integers(10960, 32871)


@st.composite
def instants(draw, step=1, lo=10960, hi=32871):
    """Microseconds since the epoch, multiples of step, crowded around midnights and year ends."""
    day = draw(st.one_of(st.integers(lo, hi), st.sampled_from([11016, 11322, 11323, 16800, 19357, 19358, 19782, 19783])))
    tod = draw(st.one_of(st.integers(0, DAY - 1), st.integers(0, 5_000_000), st.integers(DAY - 5_000_000, DAY - 1),
                         st.sampled_from([0, DAY // 2, DAY - 1_000_000, 43_199_000_000])))
    t = day * DAY + tod
    return t - t % step


def floats(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)


def dec(lo, hi, places):
    """Decimal numbers with a fixed number of places (so text and value agree)."""
    s = 10 ** places
    return st.integers(int(lo * s), int(hi * s)).map(lambda v: v / s)


seeds = st.integers(0, 2 ** 31 - 1)
