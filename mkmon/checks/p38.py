"""Plots show every node and edge of the graph they are made of."""
import collections
import math
import warnings
import networkx as nx
from mkmon import gen

ID = 'P38'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 1600, 20000
RULE = ('Random graphs of 0-20 nodes (directed or not, with loops, with 0-12 types of nodes, some or all without a type) are drawn without a screen; the drawn points, colours, lines, arrows and labels are read back from the figure and '
        'compared with the graph. Density plots (given layouts and computed ones, overlays, solid and coloured) have the surface handed to the plotting library compared with the number of nodes in each cell. '
        'Non-trivial: at least three nodes and an edge.')
ASSUMPTIONS = ['What the plotting library is told to draw is what it draws.', 'Where a computed layout puts a node is open, except that what is drawn and what is counted agree.', 'Each plot starts with no figure open.']
REQUIRED = ['visual', 'density', 'typed', 'many_types', 'part_typed', 'directed', 'loops', 'labels', 'given_layout', 'computed_layout', 'overlay', 'solid', 'blurred', 'no_nodes', 'shared_cells', 'wrong_input']


def graph(rng, ctx):
    G = rng.choice([nx.Graph, nx.Graph, nx.DiGraph])()
    pool = [gen.words(rng, 1, 2) + str(i) for i in range(12)] + list(range(8))
    ns = rng.sample(pool, rng.choice([0, 1, 1, 2, 3, 5, 9, 14, 20]))
    k = rng.choice([0, 0, 1, 2, 4, 8, 12])
    types = rng.sample(['Author', 'AU', '', 0, 1, '0', '1', 2.5, 'naïve', ('a', 1), 'e', 'f', 'g', 'h'], k)
    for n in ns:
        G.add_node(n)
        if k:
            G.nodes[n]['type'] = rng.choice(types)
        if rng.random() < 0.3:
            G.nodes[n]['count'] = rng.randint(1, 9)
    for a in ns:
        for b in ns:
            if rng.random() < 0.12 and (a != b or rng.random() < 0.3):
                G.add_edge(a, b, weight=rng.randint(1, 5))
    if k and len(ns) > 1 and rng.random() < 0.25:
        ctx.count('part_typed')
        for n in rng.sample(ns, rng.randint(1, len(ns) - 1)):
            del G.nodes[n]['type']
    ctx.count('directed', int(G.is_directed()))
    return G, {G.nodes[n].get('type', None) for n in ns} if k else set()


def near(a, b, tol=1e-6):
    return all(abs(x - y) <= tol for x, y in zip(a, b))


def visual(rng, ctx, plt):
    import metaknowledge.contour as mc
    from matplotlib.collections import LineCollection, PathCollection
    from matplotlib.patches import FancyArrowPatch
    ctx.count('visual')
    G, types = graph(rng, ctx)
    ns = list(G.nodes())
    part = bool(types) and any('type' not in d for _, d in G.nodes(data=True))
    label = rng.random() < 0.5
    was = (sorted(map(repr, G.nodes(data=True))), sorted(map(repr, G.edges(data=True))))
    what = lambda: 'quickVisual(showLabel={}) of a {} with {} and {}'.format(label, type(G).__name__, list(G.nodes(data='type')), list(G.edges()))
    try:
        mc.quickVisual(G, showLabel=label)
    except RuntimeError as e:
        ctx.check(part, 'refused', lambda: '{}: {}'.format(what(), e))
        return
    ctx.check(not part, 'part-typed-accepted', what)
    ctx.eq((sorted(map(repr, G.nodes(data=True))), sorted(map(repr, G.edges(data=True)))), was, 'graph-changed', what)
    if part:
        return
    axes = [a for f in plt.get_fignums() for a in plt.figure(f).axes]
    if not ctx.check(len(axes) == 1, 'axes', what):
        return
    ax = axes[0]
    pts = [c for c in ax.collections if isinstance(c, PathCollection)]
    spots = [tuple(map(float, p)) for c in pts for p in c.get_offsets()]
    ctx.count('no_nodes', int(not ns))
    if not ctx.eq(len(spots), len(ns), 'points', what):
        return
    # the colours
    if ns:
        cols = [tuple(map(float, c)) for c in pts[0].get_facecolors()]
        cols = cols * len(ns) if len(cols) == 1 else cols
        if ctx.eq(len(cols), len(ns), 'colour-count', what) and types:
            ctx.count('typed')
            by = collections.defaultdict(set)
            for n, c in zip(ns, cols):
                by[G.nodes[n]['type']].add(c)
            ctx.check(all(len(s) == 1 for s in by.values()), 'colour-of-type', lambda: '{}: {}'.format(what(), dict(by)))
            ctx.count('many_types', int(len(by) > 4))
            if len(by) <= 8:
                ctx.eq(len({c for s in by.values() for c in s}), len(by), 'colours-differ', lambda: '{}: {}'.format(what(), dict(by)))
        elif not types:
            ctx.check(len(set(cols)) == 1, 'one-colour', what)
    # the lines
    at = dict(zip(ns, spots))
    if not G.is_directed():
        loops = sum(a == b for a, b in G.edges())
        ctx.count('loops', int(loops > 0))
        segs = [[tuple(map(float, p)) for p in s] for c in ax.collections if isinstance(c, LineCollection) for s in c.get_segments()]
        arrows = [p for p in ax.patches if isinstance(p, FancyArrowPatch)]
        straight = [s for s in segs if not (len(s) == 2 and near(s[0], s[1]))]
        ctx.eq(len(straight), G.number_of_edges() - loops, 'line-count', what)
        ctx.check(len(segs) - len(straight) + len(arrows) >= loops or not loops, 'loop-count', lambda: '{}: {} patches'.format(what(), len(arrows)))
        for a, b in G.edges():
            if a != b:
                ctx.check(any(near(s[0], at[a]) and near(s[-1], at[b]) or near(s[0], at[b]) and near(s[-1], at[a]) for s in segs), 'line', lambda: '{}: no line between {!r} and {!r}'.format(what(), a, b))
    else:
        arrows = [p for p in ax.patches if isinstance(p, FancyArrowPatch)]
        ctx.eq(len(arrows), G.number_of_edges(), 'arrow-count', what)
        ends = [tuple(tuple(map(float, q)) for q in p._posA_posB) for p in arrows if getattr(p, '_posA_posB', None) is not None]
        for a, b in G.edges():
            if a != b and len(ends) == len(arrows):
                ctx.check(any(near(s[0], at[a]) and near(s[1], at[b]) for s in ends), 'arrow', lambda: '{}: no arrow from {!r} to {!r}'.format(what(), a, b))
    texts = collections.Counter(t.get_text() for t in ax.texts)
    if label:
        ctx.count('labels')
        ctx.eq(texts, collections.Counter(str(n) for n in ns), 'labels', what)
        for n in ns:
            ctx.check(any(t.get_text() == str(n) and near(t.get_position(), at[n]) for t in ax.texts), 'label-place', lambda: '{}: {!r}'.format(what(), n))
    else:
        ctx.eq(texts, collections.Counter(), 'no-labels', what)
    if len(ns) > 2 and G.number_of_edges():
        ctx.sig('visual', label, sorted(map(repr, G.nodes(data='type'))), sorted(map(repr, G.edges())))
        ctx.sample({'nodes': len(ns), 'edges': G.number_of_edges(), 'types': len(types)})


class Spy:
    """What surfaces are handed to the plotting library"""

    def __enter__(self):
        from mpl_toolkits.mplot3d import Axes3D
        self.cls, self.old, self.seen = Axes3D, {}, []
        for n in ('plot_surface', 'contourf', 'contour', 'plot_wireframe', 'plot_trisurf', 'contourf3D', 'contour3D'):
            if n in self.cls.__dict__:
                self.old[n] = self.cls.__dict__[n]
                setattr(self.cls, n, self.wrap(n, self.old[n]))
        return self

    def wrap(self, name, fn):
        def call(ax, X, Y, Z, *a, **kw):
            self.seen.append((name, X, Y, Z, a, kw))
            return fn(ax, X, Y, Z, *a, **kw)
        return call

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(self.cls, n, f)


def density(rng, ctx, plt):
    import numpy as np
    import metaknowledge.contour as mc
    from matplotlib.collections import PathCollection
    ctx.count('density')
    if rng.random() < 0.05:
        ctx.count('wrong_input')
        for a, kw in ((5, {}), (nx.Graph([(1, 2)]), {'layout': 'spring'})):
            try:
                mc.graphDensityContourPlot(a, **kw)
            except TypeError:
                ctx.check(True, 'wrong-input')
            else:
                ctx.fail('wrong-input', 'graphDensityContourPlot({!r}, {}) is accepted'.format(a, kw))
        return
    G, _ = graph(rng, ctx)
    while not len(G):
        G, _ = graph(rng, ctx)
    ns = list(G.nodes())
    size = rng.choice([5, 12, 20, 31])
    kw = {'axisSamples': size}
    blur = rng.random() < 0.3
    kw['blurringFactor'] = rng.choice([0.05, 0.1]) if blur else 1e-6
    ctx.count('blurred', int(blur))
    overlay = rng.random() < 0.5
    if overlay:
        kw['overlay'] = True
        ctx.count('overlay')
    solid = rng.random() < 0.4
    if solid:
        kw['graphType'] = 'solid'
        ctx.count('solid')
    if rng.random() < 0.3:
        kw['contours'] = rng.choice([5, 30])
    want = None
    lay = None
    if rng.random() < 0.6:
        ctx.count('given_layout')
        f = rng.choice([1, 1, 2.5, 100])
        if f != 1 or rng.random() < 0.3:
            kw['layoutScaleFactor'] = f
        few = [(rng.uniform(-1, 1), rng.uniform(-1, 1)) for _ in range(3)] + [(-1, -1), (1, 1), (1, -1), (0, 0)]
        lay = {n: np.array(rng.choice(few) if rng.random() < 0.5 else (rng.uniform(-1, 1), rng.uniform(-1, 1))) * f for n in ns}
        kw['layout'] = lay
        was = {n: tuple(v) for n, v in lay.items()}
        want = collections.Counter()
        close = False
        for n in ns:
            p = [(v / f + 1) / 2 * (size - 1) for v in lay[n]]
            close = close or any(abs(v - math.floor(v) - 0.5) < 1e-6 for v in p)
            want[tuple(int(round(v)) for v in p)] += 1
        ctx.count('shared_cells', int(max(want.values()) > 1))
        if close:
            want = None     # on the line between two cells
    else:
        ctx.count('computed_layout')
        kw['iters'] = rng.choice([1, 5, 50])
    what = lambda: 'graphDensityContourPlot({}) of {} nodes'.format({k: v for k, v in kw.items() if k != 'layout'}, len(ns))
    with Spy() as spy:
        mc.graphDensityContourPlot(G, **kw)
    if not ctx.check(bool(spy.seen), 'no-surface', what):
        return
    name, X, Y, Z, a, k = spy.seen[0]
    ctx.check(('surface' in name) == solid, 'kind', lambda: '{} drawn by {}'.format(what(), name))
    X, Y, Z = np.asarray(X), np.asarray(Y), np.asarray(Z)
    if not ctx.check(X.shape == Y.shape == Z.shape == (size, size), 'shape', lambda: '{}: {}'.format(what(), (X.shape, Z.shape))):
        return
    ctx.check(abs(float(Z.sum()) - len(ns)) < 1e-3 * len(ns) + 1e-3, 'mass', lambda: '{}: the surface holds {} nodes'.format(what(), float(Z.sum())))
    cell = {(int(round(float(X[i][j]))), int(round(float(Y[i][j])))): float(Z[i][j]) for i in range(size) for j in range(size)}
    if not blur:
        got = collections.Counter({k: int(round(v)) for k, v in cell.items() if abs(v) > 1e-3})
        ctx.check(all(abs(v - round(v)) < 1e-3 for v in cell.values()), 'whole', what)
        if want is not None:
            ctx.eq(got, want, 'cells', what)
    elif want is not None:
        # the top lies where the nodes are
        top = max(cell, key=cell.get)
        ctx.check(any(max(abs(top[0] - p[0]), abs(top[1] - p[1])) <= 0.1 * size + 2 for p in want) or len(want) > 1, 'top', lambda: '{}: top at {}, nodes in {}'.format(what(), top, dict(want)))
    fig = plt.figure(plt.get_fignums()[-1])
    ax = fig.axes[0]
    spots = []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            o = c._offsets3d if hasattr(c, '_offsets3d') else c.get_offsets().T
            spots += list(zip(map(float, o[0]), map(float, o[1])))
    if overlay:
        if ctx.eq(len(spots), len(ns), 'overlay-points', what) and not blur:
            mine = collections.Counter()
            close = False
            for x, y in spots:
                close = close or any(abs(v - math.floor(v) - 0.5) < 1e-6 for v in (x, y))
                mine[(int(round(x)), int(round(y)))] += 1
            if not close:
                ctx.eq(mine, got, 'overlay', lambda: '{}: points drawn and counted'.format(what()))
    else:
        ctx.eq(len(spots), 0, 'no-overlay', what)
    if lay is not None:
        ctx.eq({n: tuple(v) for n, v in lay.items()}, was, 'layout-changed', what)
    if len(ns) > 2:
        ctx.sig('density', sorted(map(repr, G)), sorted((k, v) for k, v in kw.items() if k != 'layout'), sorted(got.items()) if not blur else None)


def case(rng, ctx):
    warnings.simplefilter('ignore')
    import random
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import numpy as np
    np.random.seed(rng.randint(0, 2 ** 31))
    random.seed(rng.random())
    plt.close('all')
    try:
        (visual if rng.random() < 0.65 else density)(rng, ctx, plt)
    finally:
        plt.close('all')
