"""One-, multi-level, two- and multi-mode networks count exactly the co-occurrences inside records."""
import collections
import networkx as nx
from mkmon import gen, rc, ref, universe

ID = 'P11'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 20000, 300000
RULE = ('Random record and grant collections (0-9 members), random modes, stemmers, node counts, weights, node and edge attributes, directed and undirected; nodes, edges and all their attributes '
        'are compared with counts made from the described records. Non-trivial: the network has an edge.')
ASSUMPTIONS = ['In two- and multi-mode networks the modes have no value in common, as otherwise a node has no single type.', 'Values that are zero are left out of multi-mode networks.']
REQUIRED = ['one_mode', 'multi_level', 'two_mode', 'multi_mode', 'multigraphs', 'stemmed', 'self_loops', 'directed', 'grant_collections', 'edges', 'node_attributes', 'no_counts', 'no_weights', 'bad_arguments']

STEM = {'lower': str.lower, 'first': lambda s: s[:1], 'len': lambda s: str(len(s)), 'id': lambda s: s, 'words': lambda s: ' '.join(w[:3] for w in s.split(' '))}


def want(rows, edgesOf, directed, nodeCount, edgeWeight, edgeAttr, types=None, nodeAttr=None):
    """rows: per record (groups of values, edge attribute values, node attribute values)"""
    nodes, edges = collections.OrderedDict(), {}
    for groups, ev, nv in rows:
        for gi, g in enumerate(groups):
            for v in g:
                d = nodes.setdefault(v, {})
                if nodeCount:
                    d['count'] = d.get('count', 0) + 1
                if types:
                    d['type'] = types[gi]
                if nodeAttr:
                    d.setdefault(nodeAttr, set()).update(nv)
        for a, b in edgesOf(groups):
            e = ref.edgeKey(a, b, not directed)
            for k in ([e] if edgeAttr is None else [(e, x) for x in ev]):
                d = edges.setdefault(k, {})
                if edgeWeight:
                    d['weight'] = d.get('weight', 0) + 1
    return nodes, edges


def chain(groups):
    l = [v for g in groups for v in g]
    return [(l[i], l[j]) for i in range(len(l)) for j in range(i + 1, len(l))]


def across(groups):
    return [(a, b) for i, g in enumerate(groups) for h in groups[i + 1:] for a in g for b in h]


def case(rng, ctx):
    import metaknowledge as mk
    if rng.random() < 0.15:
        ctx.count('grant_collections')
        gs = [G for _, G in universe.grants(rng, ctx, rng.randint(1, 6))]
        C = mk.GrantCollection(gs)
        recs = gs
        keys = sorted({k for G in gs for k in G.keys() if all(X.get(k, '') is not None for X in gs)} | {'absent'})
        val = lambda G, k: G.get(k)
        kind = 'grants'
    else:
        recs, C, kind = rc.collection(rng, ctx)
        keys = rc.keysFor(rng, kind)
        if kind == 'mixed':
            keys = ['authorsFull', 'authorsShort', 'title', 'year', 'keywords', 'j9', 'journal']
        val = rc.value
    S = lambda r, k: [ref.strVal(v) for v in ref.asList(val(r, k))]
    form = rng.choice(['one', 'level', 'two', 'multi'])
    nodeCount, edgeWeight = rng.random() < 0.8, rng.random() < 0.8
    ctx.count('no_counts', int(not nodeCount))
    ctx.count('no_weights', int(not edgeWeight))
    edgeAttr = rng.choice(keys) if rng.random() < 0.3 else None
    stem = rng.choice(list(STEM)) if rng.random() < 0.35 else None
    f = STEM[stem] if stem else (lambda s: s)
    ctx.count('stemmed', int(bool(stem)))
    ctx.count('multigraphs', int(bool(edgeAttr)))
    directed = False
    if form in ('one', 'level'):
        modes = [rng.choice(keys)] if form == 'one' else rng.sample(keys, min(len(keys), rng.randint(1, 4)))
        nodeAttr = rng.choice(keys) if rng.random() < 0.3 else None
        ctx.count('node_attributes', int(bool(nodeAttr)))
        rows = [([[f(s) for s in S(r, k)] for k in modes], S(r, edgeAttr) if edgeAttr else None, S(r, nodeAttr) if nodeAttr else None) for r in recs]
        kw = dict(nodeCount=nodeCount, edgeWeight=edgeWeight, stemmer=f if stem else None, edgeAttribute=edgeAttr, nodeAttribute=nodeAttr)
        w = want(rows, chain, False, nodeCount, edgeWeight, edgeAttr, nodeAttr=nodeAttr)
        ctx.count('one_mode' if form == 'one' else 'multi_level')
        g = C.networkOneMode(modes[0], **kw) if form == 'one' else C.networkMultiLevel(*modes, **kw)
        conv = str
    else:
        recordType = rng.random() < 0.8
        for _ in range(20):
            modes = rng.sample(keys, min(len(keys), 2 if form == 'two' else rng.randint(1, 4)))
            if form == 'two' and len(modes) < 2:
                continue
            stems = [f if stem else None] * len(modes)
            if form == 'two' and rng.random() < 0.5:
                stems[rng.randrange(2)] = None
            fs = [x or (lambda s: s) for x in stems]
            vals = [{fs[i](s) for r in recs for s in S(r, k)} for i, k in enumerate(modes)]
            if sum(map(len, vals)) == len(set().union(*vals)) and (form == 'two' or not any(v in (0, '', []) for r in recs for k in modes for v in [val(r, k)])):
                break
        else:
            return
        if form == 'two' and len(modes) < 2:
            return
        ev = lambda r: (ref.asList(val(r, edgeAttr)) if form == 'two' else S(r, edgeAttr)) if edgeAttr else None
        evs = [ev(r) for r in recs]
        if form == 'two' and edgeAttr:      # citations and lists are made comparable
            evs = [[x.id if isinstance(x, gen.Cit) else x for x in e] for e in evs]
        rows = [([[fs[i](s) for s in S(r, k)] for i, k in enumerate(modes)], e, None) for r, e in zip(recs, evs)]
        directed = form == 'two' and rng.random() < 0.5
        ctx.count('directed', int(directed))
        w = want(rows, across, directed, nodeCount, edgeWeight, edgeAttr, types=modes if recordType else None)
        if form == 'two':
            ctx.count('two_mode')
            g = C.networkTwoMode(*modes, directed=directed, recordType=recordType, nodeCount=nodeCount, edgeWeight=edgeWeight, stemmerTag1=stems[0], stemmerTag2=stems[1], edgeAttribute=edgeAttr)
        else:
            ctx.count('multi_mode')
            args = [modes] if rng.random() < 0.3 else modes
            g = C.networkMultiMode(*args, recordType=recordType, nodeCount=nodeCount, edgeWeight=edgeWeight, stemmer=f if stem else None, edgeAttribute=edgeAttr)
        nodeAttr = None
        conv = lambda k: k.ID() if isinstance(k, mk.Citation) else k
    what = lambda: '{} network of {} ({} records of kind {}, stemmer {}, edge attribute {})'.format(form, modes, len(recs), kind, stem, edgeAttr)
    ctx.eq(type(g), {(0, 0): nx.Graph, (1, 0): nx.DiGraph, (0, 1): nx.MultiGraph, (1, 1): nx.MultiDiGraph}[int(directed), int(edgeAttr is not None)], 'graph-type', what)
    nodes, edges = ref.graphOf(g)
    if nodeAttr:
        for d in nodes.values():
            l = d.get(nodeAttr)
            if isinstance(l, list):
                d[nodeAttr] = set(l)
    if edgeAttr is not None:
        edges = {(e, conv(k)): d for (e, k), d in edges.items()}
    ctx.eq(set(nodes), set(w[0]), 'nodes', what)
    ctx.eq(nodes, dict(w[0]), 'node-attributes', what)
    ctx.eq(set(edges), set(w[1]), 'edges', what)
    ctx.eq(edges, w[1], 'edge-attributes', what)
    ctx.count('edges', len(edges))
    ctx.count('self_loops', sum(1 for e in w[1] if (len(e) == 1 or (edgeAttr and isinstance(e[0], frozenset) and len(e[0]) == 1))))
    if rng.random() < 0.05:
        ctx.count('bad_arguments')
        for call in (lambda: C.networkOneMode(keys[0], stemmer=3), lambda: C.networkTwoMode(3, keys[0]), lambda: C.networkTwoMode(keys[0], None), lambda: C.networkMultiMode(keys[0], 3),
                     lambda: C.networkMultiMode(3), lambda: C.networkMultiMode(keys[0], stemmer='x')):
            try:
                call()
            except mk.TagError:
                pass
            else:
                ctx.fail('bad-argument', 'accepted')
    if edges:
        ctx.sig(form, modes, sorted(map(repr, nodes)), stem, edgeAttr)
        ctx.sample({'form': form, 'modes': modes, 'records': len(recs), 'nodes': len(nodes), 'edges': len(edges), 'edgeAttribute': edgeAttr})
