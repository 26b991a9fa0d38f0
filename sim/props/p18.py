"""P18: interactive figures keep a consistent view under any event sequence."""
import copy

import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt            # noqa: E402
from matplotlib.backend_bases import MouseEvent, KeyEvent   # noqa: E402

from sporco import plot as spl             # noqa: E402

from ..engine import Violation             # noqa: E402
from ..util import rs, with_, drop_each    # noqa: E402

LEVEL = 'exploration'
RUNS = dict(quick=1200, thorough=60000)
RULE = ('a scenario fixes a figure with several axes made by the plot functions and a sequence of wheel, key and pointer events at positions inside and outside the axes, re-attachments, further plots, '
        'failing redraws and failing limit callbacks; after each event the limits and the figure size are compared with an exact model and the invariants; non-trivial if at least two wheel events hit axes')
MEASURE = 'distinct (axes kind, event, place, clamped, attachments, fault) tuples'
COMPONENTS = {'real': ['sporco.plot', 'matplotlib event dispatch, axes, transforms (Agg back end)'], 'stub': ['in most runs the rasteriser: canvas.draw only updates the layout', 'events are synthesised in place of a window system']}
ASSUMPTIONS = ['limits are changed by wheel events and by further plotting only, not by toolbar panning', 'handlers are not attached again to axes that share an axis with others']

KINDS = ['plot', 'plot', 'semilogx', 'loglog', 'imview', 'imviewcb', 'contour', 'contourlog', 'invx', 'invxy', 'twin', 'surf']


def generate(rng, tier, i):
    axes = [dict(k=rng.choice(KINDS), seed=rng.getrandbits(20), sc=rng.choice([None, None, None, 1.5, 3.0]), nat=rng.choice([0, 0, 1, 2])) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    if rng.random() < .2:
        axes = [dict(k=rng.choice(['plot', 'invx']), seed=rng.getrandbits(20), sc=None, nat=rng.choice([0, 1])) for _ in range(2)]
    ops = []
    n = rng.choice([3, 8, 15, 30] if tier == 'quick' else [5, 20, 60, 120])
    pin = rng.choice([.3, .5, .8])
    pos = None
    for _ in range(n):
        r = rng.random()
        if r < .68:
            if pos is None or rng.random() < .5:
                pos = [rng.randrange(len(axes)), round(rng.choice([rng.random(), 0.002, 0.998, .5]), 4), round(rng.choice([rng.random(), 0.002, 0.998, .5]), 4)]
            e = dict(op='scroll', ax=pos[0], x=pos[1], y=pos[2], b='up' if rng.random() < pin else 'down', rep=rng.choice([1, 1, 1, 2, 5, 1, 1, 70 if rng.random() < .08 else 3]))
            if rng.random() < .07:
                e['fault'] = rng.choice(['draw', 'limits'])
            ops.append(e)
        elif r < .76:
            ops.append(dict(op='outside', x=rng.choice([1, 2, -5, 5000]), b=rng.choice(['up', 'down'])))
        elif r < .86:
            ops.append(dict(op='key', key=rng.choice(['e', 'c', 'e', 'c', 'x', 'Q', 'E', 'ctrl+e', None, 'q' if rng.random() < .2 else 'z', 'escape', 'f5'])))
        elif r < .91:
            ops.append(dict(op='attach', ax=rng.randrange(len(axes)), sc=rng.choice([None, None, 2.0, 4.0])))
        elif r < .94:
            ops.append(dict(op='attachkey'))
        elif r < .97:
            ops.append(dict(op='replot', ax=rng.randrange(len(axes)), seed=rng.getrandbits(20)))
        else:
            ops.append(dict(op='move', ax=rng.randrange(len(axes)), x=rng.random(), y=rng.random()))
    return dict(axes=axes, shared=len(axes) == 2 and rng.random() < .2 and all(a['k'] == 'plot' for a in axes), ops=ops, real=rng.random() < .04, own=rng.random() < .15 and len(axes) == 1)


def nontrivial(scn):
    import json
    return json.dumps(scn, sort_keys=True) if sum(o['op'] == 'scroll' for o in scn['ops']) > 1 else None


class Boom(Exception):
    pass


def draw_axes(a, ax, fig):
    r = rs(a['seed'])
    k = a['k']
    y = np.abs(r.randn(20)) * 10 ** r.uniform(-3, 3) + .1
    img = None
    if k in ('plot', 'invx', 'invxy', 'twin'):
        spl.plot(y, x=np.sort(r.rand(20)) * 100 + r.randn(), fig=fig, ax=ax)
    elif k in ('semilogx', 'loglog'):
        spl.plot(y, x=np.arange(1, 21), ptyp=k, fig=fig, ax=ax)
    elif k in ('imview', 'imviewcb'):
        img = r.rand(*r.randint(3, 12, size=2))
        spl.imview(img, fig=fig, ax=ax, cbar=k == 'imviewcb', fltscl=bool(a['seed'] & 1))
    elif k in ('contour', 'contourlog'):
        z = r.rand(6, 7)
        spl.contour(z, x=np.arange(1, 8), y=np.arange(1, 7), fig=fig, ax=ax, xlog=k == 'contourlog')
    return img


class Model(object):
    """Exact model of the view limits of one set of axes."""

    def __init__(self, ax, sc):
        self.ax = ax
        self.sc = 2.0 if sc is None else sc
        self.ref = self.lims()
        self.cur = self.lims()
        self.natt = 1
        self.partial = False     # a failing limit callback has interrupted the last wheel event

    def lims(self):
        return [tuple(map(float, self.ax.get_xlim())), tuple(map(float, self.ax.get_ylim()))]

    def zoom1(self, cur, ref, p, f):
        inv = ref[1] < ref[0]
        lo, hi = sorted(cur)
        rl, rh = sorted(ref)
        nl, nh = p - (p - lo) * f, p + (hi - p) * f
        w = min(nh - nl, rh - rl)
        cl = False
        if nh - nl >= rh - rl:
            nl, nh, cl = rl, rh, True
        if nl < rl:
            nl, nh, cl = rl, rl + w, True
        if nh > rh:
            nl, nh, cl = rh - w, rh, True
        return ((nh, nl) if inv else (nl, nh)), cl

    def zoom(self, p, b):
        f = 1.0 / self.sc if b == 'up' else self.sc
        out, cl = [], False
        for d in (0, 1):
            n, c = self.zoom1(self.cur[d], self.ref[d], p[d], f)
            out.append(n)
            cl = cl or c
        return out, cl


def span(l):
    return abs(l[1] - l[0])


def execute(scn, ctx):
    try:
        _execute(scn, ctx)
    finally:
        plt.close('all')


def _execute(scn, ctx):
    plt.close('all')
    n = len(scn['axes'])
    with np.errstate(all='ignore'):
        fig, axs = plt.subplots(1, n, squeeze=False, figsize=(2 * n, 2), dpi=50, sharex=scn['shared'])
    axs = list(axs[0])
    drawn = [0]
    fail = {'draw': False, 'limits': None}
    rdraw = fig.canvas.draw

    def draw(*a, **k):
        drawn[0] += 1
        if fail['draw']:
            fail['draw'] = False
            raise Boom('redraw')
        # at extreme magnification Matplotlib itself cannot render the tick labels
        if scn['real'] and all(span(l) > 1e-6 * max(map(abs, l)) for ax in fig.axes for l in (ax.get_xlim(), ax.get_ylim())):
            try:
                return rdraw(*a, **k)
            except RuntimeError as e:
                if 'FT_' not in str(e):
                    raise
        for ax in fig.axes:
            ax.apply_aspect()
    fig.canvas.draw = draw
    # picking is not used, and slow
    for nm in ('_button_pick_id', '_scroll_pick_id'):
        if hasattr(fig, nm):
            fig.canvas.mpl_disconnect(getattr(fig, nm))
    imgs, mods = [], []
    for a, ax in zip(scn['axes'], axs):
        if a['k'] == 'surf':
            fig.delaxes(ax)
            pos = axs.index(ax)
            axs[pos] = ax = fig.add_subplot(1, n, pos + 1, projection='3d')
            ctx.attempt('surf', spl.surf, rs(a['seed']).rand(5, 6), fig=fig, ax=ax)
            imgs.append(None)
            continue
        imgs.append(ctx.attempt('plotting', draw_axes, a, ax, fig))
    for a, ax in zip(scn['axes'], axs):
        if a['k'] == 'invx':
            ax.invert_xaxis()
        elif a['k'] == 'invxy':
            ax.invert_xaxis()
            ax.invert_yaxis()
    twins = {}
    for j, (a, ax) in enumerate(zip(scn['axes'], axs)):
        if a['k'] == 'twin':
            t = ax.twinx()
            t.plot([0, 100], [-7, 3])
            ax.set_xlim(ax.get_xlim())
            twins[j] = t
    # attachments as made by the user after adapting the axes
    for a, ax in zip(scn['axes'], axs):
        if a['k'] == 'surf':
            mods.append(None)
            continue
        if a['k'] in ('invx', 'invxy', 'twin') or a['sc'] is not None or scn['shared']:
            ctx.attempt('attach_zoom', spl.attach_zoom, ax, **({} if a['sc'] is None else {'scaling': a['sc']}))
        for _ in range(a['nat']):
            ctx.attempt('attach_zoom', spl.attach_zoom, ax, **({} if a['sc'] is None else {'scaling': a['sc']}))
            ctx.fault('reattach_zoom')
    if scn['shared']:
        for ax in axs:
            spl.attach_zoom(ax)
    for a, ax in zip(scn['axes'], axs):
        if a['k'] != 'surf':
            mods.append(None)
    mods = [None if a['k'] == 'surf' else Model(ax, None if scn['shared'] else a['sc']) for a, ax in zip(scn['axes'], axs)]
    canvas = fig.canvas
    size = fig.get_size_inches().copy()
    draw()
    tiny = [False]

    def reread():
        for m in mods:
            if m:
                m.cur = m.lims()

    def verify(what, moved=None, either=False):
        got = fig.get_size_inches()
        if not np.allclose(got, size, rtol=1e-9):
            raise Violation('size', '%s: figure size is %s, expected %s' % (what, got, size))
        for j, m in enumerate(mods):
            if m is None:
                continue
            g = m.lims()
            small = any(min(span(g[d]), span(m.cur[d])) < max(abs(m.cur[d][0]), abs(m.cur[d][1])) * 1e-7 for d in (0, 1))
            for d, nm in ((0, 'x'), (1, 'y')):
                rl, rh = sorted(m.ref[d])
                tol = 1e-9 * (span(m.ref[d]) + 0 * rh)
                lo, hi = sorted(g[d])
                if lo < rl - tol or hi > rh + tol or not np.isfinite(lo + hi):
                    raise Violation('outside', '%s: %s limits %s of axes %d are outside the original limits %s' % (what, nm, g[d], j, m.ref[d]))
                if (g[d][1] < g[d][0]) != (m.ref[d][1] < m.ref[d][0]):
                    raise Violation('direction', '%s: %s axis of axes %d changed direction: %s' % (what, nm, j, g[d]))
                want = m.cur[d]
                # at extreme magnification the limits are resolved by floating point only
                if small:
                    tiny[0] = True
                    continue
                if either:
                    continue
                # the event position is known to a finite precision
                if not np.allclose(g[d], want, rtol=0, atol=1e-6 * span(want) + tol):
                    raise Violation('limits', '%s: %s limits of axes %d are %s, expected %s' % (what, nm, j, g[d], want))
            if either or tiny[0]:
                m.cur = g

    def event(cls, *a, **k):
        e = cls(*a, **k)
        canvas.callbacks.process(e.name, e)
        return e

    def pix(ax, x, y):
        b = ax.get_window_extent()
        out = []
        for v, l, h in ((x, b.x0, b.x1), (y, b.y0, b.y1)):
            # whole pixels, strictly inside
            out.append(int(min(max(round(l + v * (h - l)), np.ceil(l + .5)), np.floor(h - .5))))
        return out

    verify('after plotting')
    alive = True
    for q, op in enumerate(scn['ops']):
        what = 'event %d (%s)' % (q, ' '.join('%s' % v for v in op.values()))
        ctx.steps += 1
        k = op['op']
        if k == 'scroll':
            ax, m = axs[op['ax']], mods[op['ax']]
            for rep in range(op['rep']):
                px, py = pix(ax, op['x'], op['y'])
                f = op.get('fault') if rep == 0 else None
                old = None
                if m is not None:
                    p = ax.transData.inverted().transform((px, py))
                    new, cl = m.zoom(p, op['b'])
                    old = m.cur
                if f == 'draw':
                    fail['draw'] = True
                elif f == 'limits':
                    def bad(x):
                        ax.callbacks.disconnect(fail['limits'])
                        raise Boom('limits')
                    fail['limits'] = ax.callbacks.connect('xlim_changed', bad)
                d0 = drawn[0]
                try:
                    e = event(MouseEvent, 'scroll_event', canvas, px, py, button=op['b'], step=1 if op['b'] == 'up' else -1)
                except Boom:
                    ctx.fault('failed_' + f)
                except Exception as ex:
                    raise Violation('exception', '%s raised %s: %s' % (what, type(ex).__name__, ex))
                else:
                    if f == 'draw':
                        fail['draw'] = False
                    elif f == 'limits' and fail['limits'] is not None:
                        try:
                            ax.callbacks.disconnect(fail['limits'])
                        except Exception:
                            pass
                    if m is not None and e.inaxes is not None and drawn[0] == d0 and not tiny[0]:
                        raise Violation('draw', '%s: the figure was not redrawn' % what)
                if m is not None:
                    m.cur = new
                    if scn['shared']:
                        for o in mods:
                            o.cur = [new[0], o.cur[1]]
                    ctx.key(scn['axes'][op['ax']]['k'], op['b'], cl, m.natt, f, n)
                if m is not None:
                    m.partial = f == 'limits' or m.partial and drawn[0] == d0
                if f == 'limits':
                    reread()
                verify('%s, repetition %d' % (what, rep), either=f is not None)
        elif k == 'outside':
            event(MouseEvent, 'scroll_event', canvas, op['x'], op['x'], button=op['b'], step=1)
            verify(what)
            ctx.key('outside')
        elif k == 'key':
            event(KeyEvent, 'key_press_event', canvas, op['key'], 5, 5)
            if op['key'] == 'e':
                size = size * 1.1
            elif op['key'] == 'c':
                size = size / 1.1
            if op['key'] == 'q':
                if plt.fignum_exists(fig.number):
                    raise Violation('close', '%s: the figure was not closed' % what)
                alive = False
                break
            if not plt.fignum_exists(fig.number):
                raise Violation('close', '%s: the figure was closed' % what)
            draw()
            verify(what)
            ctx.key('key', op['key'])
        elif k == 'attach':
            m = mods[op['ax']]
            if m is None or m.partial or scn['shared']:
                continue
            ctx.attempt(what, spl.attach_zoom, axs[op['ax']], **({} if op['sc'] is None else {'scaling': op['sc']}))
            m.sc = 2.0 if op['sc'] is None else op['sc']
            m.natt += 1
            ctx.fault('reattach_zoom')
            verify(what)
        elif k == 'attachkey':
            ctx.attempt(what, spl.attach_keypress, fig)
            ctx.fault('reattach_key')
            verify(what)
        elif k == 'replot':
            a = scn['axes'][op['ax']]
            m = mods[op['ax']]
            if m is None or m.partial or a['k'] in ('imviewcb', 'contour', 'contourlog') or scn['shared']:
                continue
            if a['k'] == 'imview' or a['k'] in ('plot', 'semilogx', 'loglog'):
                before = m.lims()
                b = dict(a, seed=op['seed'])
                imgs[op['ax']] = ctx.attempt(what, draw_axes, b, axs[op['ax']], fig)
                draw()
                after = m.lims()
                if after != before:
                    # the further plot has changed the view: this is the plot that can be zoomed from now on
                    m.ref = after
                m.cur = after
                m.sc = 2.0
                m.natt += 1
                ctx.fault('further_plot')
                verify(what)
        elif k == 'move':
            ax = axs[op['ax']]
            px, py = pix(ax, op['x'], op['y'])
            event(MouseEvent, 'motion_notify_event', canvas, px, py)
            img = imgs[op['ax']]
            if img is not None:
                xd, yd = ax.transData.inverted().transform((px, py))
                s = ax.format_coord(xd, yd)
                c, r = int(np.floor(xd + .5)), int(np.floor(yd + .5))
                ok = 0 <= c < img.shape[1] and 0 <= r < img.shape[0]
                if ok and min((xd + .5) % 1, (yd + .5) % 1) > 1e-6:
                    if 'z=%.2f' % img[r, c] not in s:
                        raise Violation('pixel', '%s: pointer text %r for pixel (%d, %d) with value %.2f' % (what, s, r, c, img[r, c]))
                    ctx.key('move', 'pixel')
            verify(what)
    if alive:
        # zooming out far enough restores the original plot
        for j, m in enumerate(mods):
            if m is None:
                continue
            for _ in range(400):
                if all(np.allclose(a, b, rtol=0, atol=1e-10 * span(b)) for a, b in zip(m.lims(), m.ref)):
                    break
                px, py = pix(axs[j], .4, .6)
                event(MouseEvent, 'scroll_event', canvas, px, py, button='down', step=-1)
                ctx.steps += 1
            g = m.lims()
            for d in (0, 1):
                if not np.allclose(g[d], m.ref[d], rtol=0, atol=1e-9 * span(m.ref[d])):
                    raise Violation('restore', 'zooming out does not restore the limits of axes %d: %s instead of %s' % (j, g[d], m.ref[d]))


def shrink(scn):
    for ops in drop_each(scn['ops']):
        yield with_(scn, ops=ops)
    if len(scn['axes']) > 1:
        for j in range(len(scn['axes'])):
            if not any(o.get('ax') == j for o in scn['ops']):
                s = copy.deepcopy(scn)
                del s['axes'][j]
                for o in s['ops']:
                    if o.get('ax', -1) > j:
                        o['ax'] -= 1
                s['shared'] = False
                yield s
    for j, a in enumerate(scn['axes']):
        for k, v in (('k', 'plot'), ('sc', None), ('nat', 0)):
            if a[k] != v:
                s = copy.deepcopy(scn)
                s['axes'][j][k] = v
                yield s
    for n, o in enumerate(scn['ops']):
        if o.get('rep', 1) > 1:
            s = copy.deepcopy(scn)
            s['ops'][n]['rep'] = 1
            yield s
