"""Filtering, merging and describing graphs."""
import copy
from mkmon import graphs, ref

ID = 'P19'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 20000, 300000
RULE = ('Random graphs of 1-12 nodes (directed or not, simple or multi, loops, missing weights and counts); every filter, the merge of two overlapping graphs, degrees, degree distributions and statistics '
        'with random options are compared with the same thing worked out from lists of nodes and edges. Non-trivial: the operation changes the graph or describes a graph with edges.')
ASSUMPTIONS = ['A loop touches its node once, as an edge, and counts for both of its ends in the degrees.', 'Graphs that are merged are simple.',
               'An element of both merged graphs keeps its own attributes and may gain ones it did not have.']
REQUIRED = ['drop_edges', 'drop_degree', 'drop_count', 'merge', 'degrees', 'distribution', 'stats', 'directed', 'multi', 'loops', 'missing_weights', 'boundary', 'refused', 'partly_counted', 'sums', 'strings', 'sentences', 'huge', 'large', 'single_weights']


SEEN, LARGE = [], []


def build(rng, kind=None, n=None):
    import networkx as nx
    kind = kind or rng.choice(['Graph', 'Graph', 'DiGraph', 'DiGraph', 'MultiGraph', 'MultiDiGraph'])
    if LARGE:
        g = graphs.large(rng, kind, *LARGE[0])
        SEEN.append(g)
        return g, 'count', 'weight'
    g = getattr(nx, kind)()
    ids = graphs.nodeIds(rng, rng.choice([1, 2, 3, 5, 8, 12]) if n is None else n)
    full = rng.random() < 0.5
    cName, wName = rng.choice(['count', 'count', 'c']), rng.choice(['weight', 'weight', 'w'])
    num = lambda: rng.choice([rng.randint(0, 6), rng.randint(0, 6), rng.randint(1, 3), 2.5, -1]) if not full or rng.random() < 0.3 else rng.randint(1, 4)
    for i in ids:
        g.add_node(i, **dict(([(cName, num())] if full or rng.random() < 0.8 else []) + ([('info', rng.choice('abc'))] if rng.random() < 0.6 else [])))
    p = rng.choice([0.0, 0.15, 0.3, 0.6])
    for a in ids:
        for b in ids:
            if rng.random() < p and (a != b or rng.random() < 0.5):
                for _ in range(rng.randint(1, 3) if 'Multi' in kind else 1):
                    g.add_edge(a, b, **dict(([(wName, num())] if full or rng.random() < 0.8 else []) + ([('year', rng.randint(1, 3))] if rng.random() < 0.5 else [])))
    SEEN.append(g)
    return g, cName, wName


def edgesOf(g):
    return list(g.edges(keys=True, data=True)) if g.is_multigraph() else list(g.edges(data=True))


def limits(rng, ctx, vals):
    """Bounds, often exactly on a value that occurs; None: not given"""
    lo = hi = None
    pick = lambda: rng.choice(list(vals)) + rng.choice([0, 0, 0, 1, -1, 0.5]) if vals and rng.random() < 0.9 else rng.randint(-2, 8)
    if rng.random() < 0.7:
        lo = pick()
    if rng.random() < 0.6:
        hi = pick()
    ctx.count('boundary', int(lo in vals or hi in vals))
    return lo, hi


def within(v, lo, hi):
    return (lo is None or v >= lo) and (hi is None or v <= hi)


def dropEdges(rng, ctx):
    import metaknowledge as mk
    g, _, wName = build(rng)
    name = wName if rng.random() < 0.9 else 'year'
    es = edgesOf(g)
    lo, hi = limits(rng, ctx, [e[-1][name] for e in es if name in e[-1]])
    ignore, loops = rng.random() < 0.6, rng.random() < 0.4
    kw = {}
    if lo is not None:
        kw['minWeight'] = lo
    if hi is not None:
        kw['maxWeight'] = hi
    if name != 'weight':
        kw['parameterName'] = name
    if ignore:
        kw['ignoreUnweighted'] = True
    if loops:
        kw['dropSelfLoops'] = True
    wantN, wantE = copy.deepcopy(ref.graphOf(g))
    keep = [e for e in es if not (loops and e[0] == e[1])]
    missing = any(name not in e[-1] for e in keep)
    ctx.count('missing_weights', int(missing))
    active = lo is not None or hi is not None
    what = lambda: 'dropEdges({}) on a {} with {}'.format(kw, type(g).__name__, es)
    try:
        ret = mk.dropEdges(g, **kw)
    except KeyError:
        ctx.count('refused')
        ctx.check(active and missing and not ignore, 'edges-refused', what)
        return None
    ctx.check(not (active and missing and not ignore), 'edges-unweighted-accepted', what)
    ctx.check(ret is None, 'edges-return', what)
    und = not g.is_directed()
    left = {}
    for e in keep:
        if name not in e[-1] or within(e[-1][name], lo, hi):
            k = ref.edgeKey(e[0], e[1], und)
            left[(k, e[2]) if g.is_multigraph() else k] = dict(e[-1])
    gotN, gotE = ref.graphOf(g)
    ctx.eq(gotE, left, 'edges', what)
    ctx.eq(gotN, wantN, 'edges-nodes', what)
    return len(left) < len(es)


def dropDegree(rng, ctx):
    import metaknowledge as mk
    g, _, wName = build(rng)
    es = edgesOf(g)
    use = rng.random() < 0.6
    include = rng.random() < 0.7
    deg = {}
    missing = False
    touch = {n: [] for n in g}
    for e in es:
        for n in {e[0], e[1]}:
            touch[n].append(e)
    for n in g:
        touching = touch[n]
        missing = missing or any(wName not in e[-1] for e in touching)
        deg[n] = sum(e[-1].get(wName, 1) for e in touching) if use else len(touching)
    lo, hi = limits(rng, ctx, list(deg.values()))
    kw = {}
    if lo is not None:
        kw['minDegree'] = lo
    if hi is not None:
        kw['maxDegree'] = hi
    if not use:
        kw['useWeight'] = False
    if wName != 'weight':
        kw['parameterName'] = wName
    if not include:
        kw['includeUnweighted'] = False
    wantN, wantE = copy.deepcopy(ref.graphOf(g))
    what = lambda: 'dropNodesByDegree({}) on a {} with {}'.format(kw, type(g).__name__, es)
    try:
        mk.dropNodesByDegree(g, **kw)
    except KeyError:
        ctx.count('refused')
        ctx.check(use and missing and not include, 'degree-refused', what)
        return None
    ctx.check(not (use and missing and not include), 'degree-unweighted-accepted', what)
    return subgraph(ctx, g, wantN, wantE, {n for n in deg if within(deg[n], lo, hi)}, 'degree', what)


def subgraph(ctx, g, wantN, wantE, keep, mech, what):
    multi = g.is_multigraph()
    gotN, gotE = ref.graphOf(g)
    ends = lambda k: set(k[0]) if multi else set(k)
    ctx.eq(gotN, {n: d for n, d in wantN.items() if n in keep}, mech + '-nodes', what)
    ctx.eq(gotE, {k: d for k, d in wantE.items() if ends(k) <= keep}, mech + '-edges', what)
    return len(keep) < len(wantN)


def dropCount(rng, ctx):
    import metaknowledge as mk
    g, cName, _ = build(rng)
    vals = {n: d[cName] for n, d in g.nodes(data=True) if cName in d}
    lo, hi = limits(rng, ctx, list(vals.values()))
    ignore = rng.random() < 0.6
    missing = len(vals) < len(g)
    kw = {}
    if lo is not None:
        kw['minCount'] = lo
    if hi is not None:
        kw['maxCount'] = hi
    if cName != 'count':
        kw['parameterName'] = cName
    if ignore:
        kw['ignoreMissing'] = True
    wantN, wantE = copy.deepcopy(ref.graphOf(g))
    what = lambda: 'dropNodesByCount({}) on a {} with {}'.format(kw, type(g).__name__, wantN)
    try:
        mk.dropNodesByCount(g, **kw)
    except KeyError:
        ctx.count('refused')
        ctx.check(missing and not ignore, 'count-refused', what)
        return None
    ctx.check(ignore or not missing, 'count-missing-accepted', what)
    return subgraph(ctx, g, wantN, wantE, {n for n in wantN if n not in vals or within(vals[n], lo, hi)}, 'count', what)


def merge(rng, ctx):
    import metaknowledge as mk
    kind = rng.choice(['Graph', 'DiGraph'])
    a, ca, wa = build(rng, kind)
    b, cb, wb = build(rng, kind)
    if rng.random() < 0.7:      # overlapping
        import networkx as nx
        ids = list(a)
        rng.shuffle(ids)
        m = {}
        for n in b:
            m[n] = ids.pop() if ids and rng.random() < 0.7 else n
        if len(set(m.values())) == len(m):
            b = nx.relabel_nodes(b, m)
    cN, wN = rng.choice([ca, cb, ca, None]), rng.choice([wa, wb, wa, None])
    kw = {}
    if cN != 'count':
        kw['incrementedNodeVal'] = cN
    if wN != 'weight':
        kw['incrementedEdgeVal'] = wN
    A, B = copy.deepcopy(ref.graphOf(a)), copy.deepcopy(ref.graphOf(b))
    what = lambda: 'merging {} into {} with {}'.format(B, A, kw)
    ret = mk.mergeGraphs(a, b, **kw)
    ctx.check(ret is None, 'merge-return', what)
    got = ref.graphOf(a)
    ctx.check(ref.graphOf(b) == B, 'merge-added-changed', what)
    for i, inc, name in ((0, cN, 'nodes'), (1, wN, 'edges')):
        x, y, g = A[i], B[i], got[i]
        if not ctx.eq(set(g), set(x) | set(y), 'merge-' + name, what):
            continue
        for k, d in g.items():
            if k not in x:
                ctx.eq(d, y[k], 'merge-new-' + name, lambda: '{}: {!r}'.format(what(), k))
            elif k not in y:
                ctx.eq(d, x[k], 'merge-own-' + name, lambda: '{}: {!r}'.format(what(), k))
            else:
                w = dict(x[k])
                if inc and inc in y[k]:
                    ctx.count('sums' if inc in w else 'partly_counted')
                    w[inc] = w.get(inc, 0) + y[k][inc]
                ctx.check(all(t in d and d[t] == v for t, v in w.items()) and all(t in w or y[k].get(t) == v for t, v in d.items()), 'merge-attributes-' + name,
                          lambda: '{}: {!r} has {} instead of {}'.format(what(), k, d, w))
    # what is done to the merged graph is not done to the added one
    for _, d in list(a.nodes(data=True)) + [e[1:] for e in a.edges(data=True)]:
        d['later'] = 1
    ctx.check(ref.graphOf(b) == B, 'merge-shared', what)
    return bool(B[0])


def degrees(rng, ctx):
    from metaknowledge import graphHelpers as gh
    g, _, wName = build(rng)
    es = edgesOf(g)
    for e in es:
        if wName in e[-1]:
            e[-1][wName] = abs(int(e[-1][wName]))
    es = edgesOf(g)
    way = rng.choice(['bi', 'in', 'out']) if g.is_directed() else 'bi'
    use = rng.choice([wName, wName, False])
    strict = rng.random() < 0.3
    missing = bool(use) and any(use not in e[-1] for e in es)
    want = {n: 0 for n in g}
    for e in es:
        v = e[-1].get(use, 1) if use else 1
        if way != 'in':
            want[e[0]] += v
        if way != 'out':
            want[e[1]] += v
    for a, b in rng.sample([e[:2] for e in es], min(len(es), 2)) if not g.is_multigraph() else []:
        ctx.count('single_weights')
        d = g.edges[a, b]
        if not use:
            ctx.eq(gh.getWeight(g, a, b, weightString=use), 1, 'single-weight')
        elif use in d:
            as_ = rng.choice([int, int, float, str])
            w = gh.getWeight(g, a, b, **dict({} if use == 'weight' else {'weightString': use}, **({} if as_ is int else {'returnType': as_})))
            ctx.eq((w, type(w)), (as_(d[use]), as_), 'single-weight')
    what = lambda: 'degrees ({}, weight {}, strict {}) of a {} with {}'.format(way, use, strict, type(g).__name__, es)
    before = copy.deepcopy(ref.graphOf(g))
    try:
        got = gh.getNodeDegrees(g, weightString=use, strictMode=strict, edgeType=way)
    except KeyError:
        ctx.count('refused')
        ctx.check(strict and missing, 'degrees-refused', what)
        return None
    ctx.check(not (strict and missing), 'degrees-accepted', what)
    ctx.eq(got, want, 'degrees', what)
    ctx.count('distribution')
    dist = gh.getDegreeDistribution(g, weightParameter=use, strictWeightNames=strict, directionalType=way)
    ctx.eq({i: c for i, c in enumerate(dist) if c}, {v: list(want.values()).count(v) for v in want.values()}, 'distribution', what)
    ctx.check(len(dist) == max(want.values()) + 1, 'distribution-length', what)
    ctx.check(ref.graphOf(g) == before, 'graph-changed', what)
    return bool(es)


NAMES = {'nodes': ('Nodes: {}', '{} nodes'), 'edges': ('Edges: {}', '{} edges'), 'isolates': ('Isolates: {}', '{} isolates'), 'loops': ('Self loops: {}', '{} self loops'),
         'density': ('Density: {}', 'a density of {}'), 'transitivity': ('Transitivity: {}', 'a transitivity of {}')}


num = lambda x: str(x) if isinstance(x, int) else '{:G}'.format(x)


def huge(rng, ctx):
    """Numbers beyond the precision of a float's usual text"""
    import metaknowledge as mk
    import networkx as nx
    g, n = nx.Graph(), rng.randint(1000001, 1300000)
    g.add_nodes_from(range(n))
    g.add_edges_from([(0, 1), (2, 2)])
    SEEN.append(g)
    what = lambda: 'statistics of a graph of {} nodes'.format(n)
    got = mk.graphStats(g, stats=('nodes', 'edges', 'isolates', 'loops'), sentenceString=rng.random() < 0.5)
    import re
    ctx.eq([int(x) for x in re.findall(r'(?<![\d.])\d+(?![\d.E+])', got)], [n, 2, n - 3, 1], 'stats-huge', what)
    return True


def stats(rng, ctx):
    import metaknowledge as mk
    if rng.random() < 0.002:
        ctx.count('huge')
        return huge(rng, ctx)
    g, _, _ = build(rng, rng.choice(['Graph', 'DiGraph', 'Graph', 'MultiGraph']))
    multi = g.is_multigraph()
    es = edgesOf(g)
    n, m = len(g), len(es)
    und = not g.is_directed()
    touch = {x for e in es for x in e[:2]}
    val = {'nodes': n, 'edges': m, 'isolates': n - len(touch), 'loops': sum(1 for e in es if e[0] == e[1]), 'density': 0 if m == 0 or n < 2 else m / (n * (n - 1)) * (2 if und else 1)}
    if und and not multi:
        nb = {x: {y for e in es for y in e[:2] if x in e[:2] and y != x} for x in g}
        tri = sum(1 for x in g for y in nb[x] for z in nb[x] if y != z and z in nb[y])
        pairs = sum(len(s) * (len(s) - 1) for s in nb.values())
        val['transitivity'] = tri / pairs if tri else 0
    asked = rng.sample(sorted(val), rng.randint(1, len(val)))
    if rng.random() < 0.2:
        asked.append(rng.choice(asked))
    asked = rng.choice([list, tuple])(asked)
    what = lambda: 'statistics {} of a {} with {}'.format(asked, type(g).__name__, es)
    how = rng.choice(['tuple', 'lines', 'sentence'])
    order = [k for k in NAMES if k in asked]
    if how == 'tuple':
        got = mk.graphStats(g, stats=asked, makeString=False)
        ctx.check(isinstance(got, tuple) and len(got) == len(asked) and all(abs(a - val[k]) < 1e-9 for a, k in zip(got, asked)), 'stats-tuple', lambda: '{}: {} instead of {}'.format(what(), got, [val[k] for k in asked]))
    elif how == 'lines':
        ctx.count('strings')
        got = mk.graphStats(g, stats=asked)
        ctx.eq(sorted(got.split('\n')), sorted(NAMES[k][0].format(num(val[k])) for k in order), 'stats-lines', what)
    else:
        ctx.count('sentences')
        got = mk.graphStats(g, stats=asked, sentenceString=True)
        parts = got[len('The graph has '):].replace(' and ', ', ').split(', ')
        ctx.check(got.startswith('The graph has ') and sorted(parts) == sorted(NAMES[k][1].format(num(val[k])) for k in order), 'stats-sentence', lambda: '{}: {!r}'.format(what(), got))
    return m > 0


def case(rng, ctx):
    name, f = rng.choice([('drop_edges', dropEdges), ('drop_degree', dropDegree), ('drop_count', dropCount), ('merge', merge), ('degrees', degrees), ('stats', stats)])
    ctx.count(name)
    del SEEN[:], LARGE[:]
    if name.startswith('drop') and rng.random() < 0.003:
        LARGE.append({'drop_edges': (1000, 100100)}.get(name, (10010, 11000)) if rng.random() < 0.3 else (200, 1500))
        ctx.count('large')
    done = f(rng, ctx)
    seen = list(SEEN)
    for g in seen:
        ctx.count('directed', int(g.is_directed()))
        ctx.count('multi', int(g.is_multigraph()))
        ctx.count('loops', int(any(a == b for a, b in g.edges())))
    if done:
        ctx.sig(name, [sorted((str(a), str(b)) for a, b in g.edges()) for g in seen])
        ctx.sample({'operation': name, 'nodes': len(seen[0]), 'edges': seen[0].number_of_edges()})
