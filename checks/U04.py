"""The snapping cursor, as a state machine over event histories."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vh import strat as S
from vh.core import Part, call, need, quiet

PROPERTY = 'U04'
RULE = ('A case is a sorted series, plot data and a sequence of mouse moves and clicks against stand-ins for the axes and lines; '
        'the oracle is a model of cross-hair, dot and selection. Non-trivial: the sequence has a move, both kinds of click and a '
        'return from outside.')


class Line:
    def __init__(self, x=(), y=()):
        self.x, self.y, self.vis = list(x), list(y), True

    def get_data(self, orig=True):
        return np.asarray(self.x), np.asarray(self.y)

    def get_xdata(self, orig=True):
        return np.asarray(self.x)

    def get_ydata(self, orig=True):
        return np.asarray(self.y)

    def set_visible(self, v):
        self.vis = v

    def get_visible(self):
        return self.vis

    def set_xdata(self, x):
        assert not np.isscalar(x)
        self.x = list(x)

    def set_ydata(self, y):
        assert not np.isscalar(y)
        self.y = list(y)

    def set_data(self, *a):
        x, y = a if len(a) == 2 else a[0]
        self.x, self.y = list(x), list(y)

    def update(self, props):
        for k, v in props.items():
            getattr(self, 'set_' + k)(v)

    def set(self, **props):
        self.update(props)


class Canvas:
    def __init__(self):
        self.draws = 0

    def draw(self):
        self.draws += 1

    draw_idle = draw

    def flush_events(self):
        pass


class Fig:
    def __init__(self):
        self.canvas = Canvas()


class Axes:
    def __init__(self):
        self.figure = Fig()
        self.made = []

    def get_figure(self):
        return self.figure

    def get_xlim(self):
        return (-1., 1.)

    def get_ylim(self):
        return (-2., 2.)

    def axhline(self, y=0, **k):
        self.h = Line([0, 1], [y, y])
        return self.h

    def axvline(self, x=0, **k):
        self.v = Line([x, x], [0, 1])
        return self.v

    def plot(self, x, y, *a, **k):
        ln = Line(x, y)
        self.made.append(ln)
        return [ln]


class Event:
    count = 0  # (within one history)

    def __init__(self, inaxes, x, y, button):
        self.inaxes, self.xdata, self.ydata, self.button = inaxes, x, y, button
        Event.count += 1
        k = Event.count
        self.name, self.key, self.step, self.guiEvent = 'button_press_event' if button else 'motion_notify_event', [None, None, 'shift', 'control'][k % 4], 0, None
        self.x, self.y, self.dblclick, self.modifiers = 37 * k % 640, 91 * k % 480, bool(button == 1 and k % 3 == 0), frozenset()
        self.canvas = inaxes.figure.canvas if inaxes else None


@st.composite
def cases(draw):
    n = draw(st.integers(1, 12))
    gaps = draw(st.lists(st.one_of(st.integers(1, 5), st.integers(1, 1000)), min_size=n, max_size=n))
    x0 = draw(st.sampled_from([0, -500, 1_600_000_000]))
    ev = st.one_of(st.tuples(st.just('in'), st.integers(-20, 20 + 10 * sum(gaps))), st.tuples(st.just('near'), st.integers(0, n - 1)),
                   st.tuples(st.just('out'), st.integers(0, 9)), st.tuples(st.just('left'), st.integers(-20, 20 + 10 * sum(gaps))),
                   st.tuples(st.just('left'), st.integers(-20, 20 + 10 * sum(gaps))), st.tuples(st.just('right'), st.integers(0, 9)),
                   st.tuples(st.just('middle'), st.integers(0, 9)))
    return dict(gaps=gaps, x0=x0, events=[list(e) for e in draw(st.one_of(st.lists(ev, min_size=1, max_size=8), st.lists(ev, min_size=14, max_size=40)))], index=draw(st.sampled_from(['range', 'offset', 'text'])),
                perm=draw(st.booleans()))


def run(case, ctx):
    from shipgrav.utils import _SnappingCursor
    xs = case['x0'] + np.cumsum(case['gaps']).astype(float)
    n = len(xs)
    ys = np.array([((7 * i) % 11) - 5.5 for i in range(n)])
    lon = np.array([10. + ((5 * i) % 13) + i * .1234567890123 for i in range(n)])
    lat = np.array([-20. - ((3 * i) % 17) + i * .0987654321098 for i in range(n)])
    index = dict(range=list(range(n)), offset=[100 + 2 * i for i in range(n)], text=['p%d' % i for i in range(n)])[case['index']]
    data = pd.DataFrame({'tsec': xs, 'lon_new': lon, 'lat_new': lat}, index=index)
    keep = data.copy(deep=True)
    ax1, ax2, dot = Axes(), Axes(), Line([0.], [0.])
    cur = call(_SnappingCursor, ax1, ax2, Line(xs, ys), dot, data)
    need(len(ax2.made) == 1, 'the markers are %d lines', len(ax2.made))
    marks = ax2.made[0]
    sel = []
    snap = None
    kinds = []
    inside_before = False
    Event.count = 0
    height = lambda: ((5 * Event.count) % 11 - 5) * 1.7  # the mouse is anywhere between top and bottom
    figs = (ax1.figure.canvas, ax2.figure.canvas)

    def shown():
        return (ax1.h.vis, ax1.v.vis, list(ax1.h.y), list(ax1.v.x), list(dot.x), list(dot.y), list(marks.x), list(marks.y))

    state, draws = shown(), 0
    for e, v in case['events']:
        kinds.append(e)
        draws = sum(f.draws for f in figs)
        if e in ('in', 'near'):
            x = float(xs[v]) + (0.25 if v % 3 == 0 else 0.) if e == 'near' else case['x0'] + v / 10.
            call(cur.on_mouse_move, Event(ax1, x, height(), None))
            d = np.abs(xs - x)
            best = np.flatnonzero(d <= d.min() + 1e-9)
            need(ax1.h.vis and ax1.v.vis, 'after %s: the cross-hair is hidden', kinds)
            got = [i for i in best if list(ax1.v.x) in ([xs[i]], [xs[i]] * 2) and set(ax1.h.y) == {ys[i]}]
            need(len(got) > 0, 'move to %r: cross-hair at x=%s y=%s, closest points are %s', x, ax1.v.x, ax1.h.y, [(xs[i], ys[i]) for i in best])
            need(any(list(dot.x) == [lon[i]] and list(dot.y) == [lat[i]] for i in got), 'move to %r: dot at %s %s, the sample is at %s', x, dot.x, dot.y,
                 [(lon[i], lat[i]) for i in got])
            snap = (list(ax1.v.x), list(ax1.h.y), list(dot.x), list(dot.y))
        elif e == 'out':
            call(cur.on_mouse_move, Event(ax2 if v % 2 else None, None if v % 2 == 0 else 3., None if v % 2 == 0 else 4., None))
            need(not ax1.h.vis and not ax1.v.vis, 'after %s: the cross-hair is still visible outside', kinds)
        elif e == 'left':
            x = case['x0'] + v / 10.
            call(cur.on_mouse_click, Event(ax1, x, height(), 1))
            d = np.abs(xs - x)
            best = np.flatnonzero(d <= d.min() + 1e-9)
            sel.append(None)
            need(len(cur.i_seg) == len(sel), 'a left click made the selection %s', list(cur.i_seg))
            need(cur.i_seg[-1] in best, 'click at %r selected row %r, closest are %s', x, cur.i_seg[-1], list(best))
            sel[-1] = int(cur.i_seg[-1])
        elif e == 'right':
            if sel:
                call(cur.on_mouse_click, Event(ax1, 1., height(), 3))
                sel.pop()
            else:
                with quiet():
                    try:
                        cur.on_mouse_click(Event(ax1, 1., height(), 3))
                    except IndexError:
                        pass  # nothing to remove
        else:
            call(cur.on_mouse_click, Event(ax1, 1., height(), 2))
        need([int(i) for i in cur.i_seg] == sel, 'after %s: selected rows %s, should be %s', kinds, list(cur.i_seg), sel)
        need(list(cur.x_seg) == [lon[i] for i in sel] and list(cur.y_seg) == [lat[i] for i in sel], 'after %s: selected positions %s %s of rows %s', kinds,
             cur.x_seg, cur.y_seg, sel)
        need(list(marks.x) == [lon[i] for i in sel] and list(marks.y) == [lat[i] for i in sel], 'after %s: markers at %s %s, selection %s', kinds, marks.x, marks.y, sel)
        if snap and e in ('left', 'right', 'middle', 'out'):
            need((list(ax1.v.x), list(ax1.h.y), list(dot.x), list(dot.y)) == snap, 'after %s: a click moved the cursor', kinds)
        # the user sees only what is drawn
        need(shown() == state or sum(f.draws for f in figs) > draws, 'after %s: the figure has changed but is not drawn', kinds)
        state = shown()
    need(data.equals(keep), 'the plot data were changed')
    ctx.label(*set(kinds))
    back = any(a == 'out' and b in ('in', 'near') for a, b in zip(kinds, kinds[1:]))
    ctx.nontrivial('left' in kinds and 'right' in kinds and back)


@st.composite
def long_cases(draw):
    rng = np.random.default_rng(draw(S.seeds))
    n = draw(st.sampled_from([100, 1000, 3000]))
    gaps = [int(v) for v in rng.integers(1, 6, n)]
    span = 10 * sum(gaps)
    ev = [[str(k), int(rng.integers(0, n)) if k == 'near' else int(rng.integers(-20, 20 + span))] for k in rng.choice(['in', 'near', 'out', 'left', 'left', 'right', 'middle'], draw(st.sampled_from([30, 150])))]
    return dict(gaps=gaps, x0=draw(st.sampled_from([0, -500, 1_600_000_000])), events=ev, index=draw(st.sampled_from(['range', 'offset', 'text'])), perm=False)


PARTS = [Part('many points', long_cases(), run, quick=8, thorough=200, shards=4),
         Part('event histories', cases(), run, quick=1200, thorough=30000, shards=8)]
