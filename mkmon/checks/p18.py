"""Graphs survive being written to files and read back."""
import collections
import csv
import os
from mkmon import gen, graphs, ref

ID = 'P18'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 15000, 250000
RULE = ('Random graphs of 0-12 nodes (directed or not, simple or multi, loops, isolated nodes, names and attributes of any text, missing attributes) are written and the files compared with the graph; simple '
        'ones are read back with the same and with renamed columns; bipartite ones are written as tnet files and compared edge by edge. Non-trivial: the graph has an edge.')
ASSUMPTIONS = ['What is read back is text: every name and attribute is the text of the original, an attribute an element does not have is empty.', 'Names that differ only in type (1 and "1") are not in one graph.',
               'Names hold no carriage returns.', 'Two-mode files list the nodes of the source mode, or of the first node\'s mode, first.']
REQUIRED = ['values_none', 'in_home', 'large', 'written', 'read_back', 'multi', 'directed', 'isolated', 'loops', 'missing_attributes', 'same_attributes', 'renamed_columns', 'not_overwritten', 'typed', 'tnet', 'tnet_weighted', 'tnet_timed',
            'tnet_refused', 'tnet_again', 'tnet_numbered_before', 'unequal_refused', 'empty', 'subdirectory', 'no_edge_info', 'single_files', 'node_list_left_out']


def rows(ctx, p):
    with open(p, newline='', encoding='utf-8') as f:
        r = list(csv.reader(f))
    ctx.check(bool(r), 'no-header', lambda: '{} is empty'.format(p))
    return (r[0], [dict(zip(r[0], x)) for x in r[1:]], all(len(x) == len(r[0]) for x in r)) if r else ([], [], False)


def text(v):
    return '' if v is None else str(v)


def frz(d):
    return tuple(sorted(d.items()))


def judgeFiles(ctx, g, edgeFile, nodeFile, info, what):
    if edgeFile:
        names = set().union(*[set(d) for _, _, d in g.edges(data=True)]) if info else set()
        head, rs, ok = rows(ctx, edgeFile)
        ctx.check(head[:2] == ['Source', 'Target'] and collections.Counter(head[2:]) == collections.Counter(names), 'edge-columns', lambda: '{}: {} for attributes {}'.format(what, head, names))
        ctx.check(ok, 'edge-row-length', what)
        und = not g.is_directed()
        key = lambda a, b: tuple(sorted((a, b))) if und else (a, b)
        got = collections.Counter((key(r.pop('Source'), r.pop('Target')), frz(r)) for r in rs)
        want = collections.Counter((key(text(a), text(b)), frz({k: text(d.get(k)) for k in names})) for a, b, d in g.edges(data=True))
        ctx.eq(got, want, 'edge-file', what)
    if nodeFile:
        names = set().union(*[set(d) for _, d in g.nodes(data=True)])
        head, rs, ok = rows(ctx, nodeFile)
        ctx.check(head[:1] == ['ID'] and collections.Counter(head[1:]) == collections.Counter(names), 'node-columns', lambda: '{}: {} for attributes {}'.format(what, head, names))
        ctx.check(ok, 'node-row-length', what)
        got = collections.Counter((r.pop('ID'), frz(r)) for r in rs)
        want = collections.Counter((text(n), frz({k: text(d.get(k)) for k in names})) for n, d in g.nodes(data=True))
        ctx.eq(got, want, 'node-file', what)


def judgeRead(ctx, h, g, info, nodes, what):
    nN = set().union(*[set(d) for _, d in g.nodes(data=True)])
    eN = set().union(*[set(d) for _, _, d in g.edges(data=True)]) if info else set()
    und = not g.is_directed()
    wantE = {ref.edgeKey(text(a), text(b), und): {k: text(d.get(k)) for k in eN} for a, b, d in g.edges(data=True)}
    if nodes:
        wantN = {text(n): {k: text(d.get(k)) for k in nN} for n, d in g.nodes(data=True)}
    else:
        wantN = {text(n): {} for e in g.edges() for n in e}
    gotN, gotE = ref.graphOf(h)
    ctx.check(h.is_directed() == g.is_directed() and not h.is_multigraph(), 'read-kind', what)
    ctx.eq(gotN, wantN, 'read-nodes', what)
    ctx.eq(gotE, wantE, 'read-edges', what)


def files(rng, ctx):
    import metaknowledge as mk
    kind = rng.choice(['Graph', 'Graph', 'DiGraph', 'DiGraph', 'MultiGraph', 'MultiDiGraph'])
    g = graphs.graph(rng, kind=kind)
    if rng.random() < 0.003:
        g = graphs.large(rng, kind, rng.choice([150, 1100]), rng.choice([1001, 2500]))
        ctx.count('large')
    elif rng.random() < 0.2:
        # values may be None, in some elements or in all that have the attribute
        most = rng.choice([0.3, 1])
        for l in ([x for _, x in g.nodes(data=True)], [x for _, _, x in g.edges(data=True)]):
            k = rng.choice(sorted({k for x in l for k in x}) or [''])
            for x in l:
                if k in x and rng.random() < most:
                    x[k] = None
                    ctx.count('values_none')
    before = ref.graphOf(g)
    multi = 'Multi' in kind
    ctx.count('written')
    ctx.count('multi', int(multi))
    ctx.count('directed', int(g.is_directed()))
    ctx.count('empty', int(len(g) == 0))
    ctx.count('isolated', sum(1 for n in g if n not in {x for e in g.edges() for x in e}) if len(g) < 100 else 0)
    ctx.count('loops', sum(1 for a, b in g.edges() if a == b))
    nsets = {frozenset(d) for _, d in g.nodes(data=True)}
    esets = {frozenset(d) for _, _, d in g.edges(data=True)}
    equal = len(nsets) < 2 and len(esets) < 2
    ctx.count('missing_attributes', int(not equal))
    d = ctx.newdir('g')
    sub = rng.random() < 0.3
    if sub:
        ctx.count('subdirectory')
        os.mkdir(os.path.join(d, 'sub'))
    stem = rng.choice(['net', 'my net', 'a.b', 'ünet', 'x_edgeList'])
    name = os.path.join(d, 'sub', stem) if sub else os.path.join(d, stem)
    # as a user may give it
    home = rng.random() < 0.15
    os.environ['HOME'] = d
    say = lambda p: '~' + p[len(d):] if home and p.startswith(d + os.sep) else p
    ctx.count('in_home', int(home))
    kw = {}
    info = typing = True
    if rng.random() < 0.25:
        kw['edgeInfo'] = info = False
        ctx.count('no_edge_info')
    typing = rng.random() < 0.4
    if typing:
        kw['typing'] = True
        ctx.count('typed')
    suffix = rng.choice(['csv', 'csv', 'txt', 'tsv.csv'])
    if suffix != 'csv':
        kw['suffix'] = suffix
    same = rng.random() < 0.3
    if same:
        kw['allSameAttribute'] = True
    what = 'a {} of {} nodes and {} edges written with {}'.format(kind, len(g), g.number_of_edges(), kw)
    t = '' if not typing else '_directed' if g.is_directed() else '_undirected'
    eF, nF = '{}_edgeList{}.{}'.format(name, t, suffix), '{}_nodeAttributes{}.{}'.format(name, t, suffix)
    if rng.random() < 0.2:
        ctx.count('not_overwritten')
        victim = rng.choice([eF, nF])
        precious = rng.choice([b'precious', b'precious', b''])
        ctx.write(victim, precious)
        try:
            mk.writeGraph(g, say(name), overwrite=False, **kw)
        except OSError:
            pass
        else:
            ctx.fail('overwrote', what)
        ctx.eq(ctx.read(victim), precious, 'overwrote', what)
        ctx.check(not os.path.exists(nF if victim == eF else eF), 'half-written', what)
        if rng.random() < 0.5:
            os.remove(victim)
            kw['overwrite'] = False
    # allSameAttribute: the first element's attributes are the columns; others may lack but not add to them
    if same:
        firstN = set(next(iter(g.nodes(data=True)))[1]) if len(g) else set()
        firstE = set(next(iter(g.edges(data=True)))[2]) if g.number_of_edges() else set()
        extra = any(set(x) - firstN for _, x in g.nodes(data=True)) or (info and any(set(x) - firstE for _, _, x in g.edges(data=True)))
        if extra:
            ctx.count('unequal_refused')
            try:
                mk.writeGraph(g, say(name), **kw)
            except ValueError:
                pass
            else:
                ctx.fail('unequal-accepted', what)
            return
        ctx.count('same_attributes')
    mk.writeGraph(g, say(name), **kw)
    ctx.eq(sorted(os.path.join(p, f) for p, _, fs in os.walk(d) for f in fs), sorted([eF, nF]), 'file-names', what)
    judgeFiles(ctx, g, eF, nF, info, what)
    ctx.check(ref.graphOf(g) == before, 'graph-changed', what)
    if rng.random() < 0.2:
        ctx.count('single_files')
        e2, n2 = os.path.join(d, 'e'), os.path.join(d, 'n')
        mk.writeEdgeList(g, say(e2), extraInfo=info)
        mk.writeNodeAttributeFile(g, say(n2))
        judgeFiles(ctx, g, e2, n2, info, what + ', files written alone')
    if g.number_of_edges():
        ctx.sig('files', kind, sorted((str(a), str(b)) for a, b in g.edges()), sorted(map(str, g)))
        ctx.sample({'kind': kind, 'nodes': len(g), 'edges': g.number_of_edges(), 'options': str(kw)})
    if multi:
        return
    ctx.count('read_back')
    nodes = rng.random() < 0.8
    ctx.count('node_list_left_out', int(not nodes))
    h = mk.readGraph(say(eF), say(nF) if nodes else None, directed=g.is_directed()) if rng.random() < 0.7 else mk.readGraph(edgeList=say(eF), nodeList=say(nF) if nodes else None, directed=g.is_directed())
    judgeRead(ctx, h, g, info, nodes, what + ' and read back')
    if rng.random() < 0.3 and not any(set(x) & {'From', 'To'} for _, _, x in g.edges(data=True)):
        ctx.count('renamed_columns')
        for p, m in ((eF, {'Source': 'From', 'Target': 'To'}), (nF, {'ID': 'Name'})):
            with open(p, newline='', encoding='utf-8') as f:
                rs = list(csv.reader(f))
            rs[0] = [m.get(x, x) for x in rs[0]]
            with open(p, 'w', newline='', encoding='utf-8') as f:
                csv.writer(f).writerows(rs)
        h = mk.readGraph(say(eF), say(nF) if nodes else None, directed=g.is_directed(), idKey='Name', eSource='From', eDest='To')
        judgeRead(ctx, h, g, info, nodes, what + ', columns renamed, and read back')


def tnet(rng, ctx):
    import metaknowledge as mk
    import networkx as nx
    ctx.count('tnet')
    timed = rng.random() < 0.3
    kind = rng.choice(['MultiGraph', 'MultiDiGraph']) if timed else rng.choice(['Graph', 'DiGraph', 'Graph', 'MultiGraph'])
    g = getattr(nx, kind)()
    attr = rng.choice(['type', 'mode', 'col'])
    modes = rng.choice([('AU', 'TI'), (1, 2), ('x', 'y y'), (0, 1), (1, 0), ('', 'y'), (False, True)])
    ids = graphs.nodeIds(rng, rng.randint(1, 10))
    side = {n: rng.choice(modes) for n in ids}
    for n in ids:
        g.add_node(n, **{attr: side[n]})
    A = [n for n in ids if side[n] == modes[0]]
    B = [n for n in ids if side[n] == modes[1]]
    wname = rng.choice(['weight', 'w'])
    weighted = rng.random() < 0.5
    years = rng.choice([['1999', '2001'], [1999, 2000, 2001], ['a b'], [0, 1], ['', 'x']])
    for a in A:
        for b in B:
            if rng.random() < 0.4:
                x, y = (a, b) if rng.random() < 0.5 else (b, a)
                for k in (rng.sample(years, rng.randint(1, len(years))) if timed else [None]):
                    g.add_edge(x, y, **dict(([('key', k)] if timed else []) + ([(wname, rng.randint(1, 9))] if weighted or rng.random() < 0.3 else [])))
    kw = {}
    src = rng.choice([None, modes[0], modes[1]])
    if src is not None:
        kw['sourceMode'] = src
    if weighted:
        kw['weighted'] = True
        ctx.count('tnet_weighted')
    if weighted and wname != 'weight':
        kw['weightString'] = wname
    if timed:
        kw['timeString'] = 'key'
        ctx.count('tnet_timed')
    idx = rng.choice(['tnet-ID', 'number'])
    if idx != 'tnet-ID':
        kw['nodeIndexString'] = idx
    if rng.random() < 0.2:
        # numbers of an earlier file
        ctx.count('tnet_numbered_before')
        for n in rng.sample(ids, rng.randint(1, len(ids))):
            g.nodes[n][idx] = rng.randint(1, 20)
    refuse = None
    r = rng.random()
    if r < 0.08 and len(ids) > 1:
        refuse = 'an edge inside a mode'
        l = A if len(A) > 1 else B
        if len(l) < 2:
            return
        g.add_edge(l[0], l[1], **{wname: 1})
    elif r < 0.16:
        refuse = 'a third mode'
        g.add_node('extra', **{attr: 'third'})
        if src is None and len(set(side.values())) < 2 or (src is not None and len(set(side.values()) | {src}) < 2):
            refuse = None
    elif r < 0.24:
        refuse = 'a node without mode'
        g.add_node('extra')
    have = set(side.values()) | ({src} if src is not None else set()) | ({'third'} if 'extra' in g and attr in g.nodes['extra'] else set())
    if len(have) != 2:
        refuse = refuse or 'not two modes'
    p = ctx.path('t.txt')
    what = 'tnet file of a {} with {} nodes, {} edges and {}'.format(kind, len(g), g.number_of_edges(), kw)
    before = ref.graphOf(g)
    for n in before[0]:
        before[0][n].pop(idx, None)
    try:
        mk.writeTnetFile(g, p, attr, **kw)
    except mk.RCValueError:
        if not ctx.check(refuse is not None, 'tnet-refused', what):
            return
        ctx.count('tnet_refused')
        return
    if not ctx.check(refuse is None, 'tnet-accepted', lambda: '{}: {}'.format(what, refuse)):
        return
    judgeTnet(ctx, g, p, attr, src, idx, timed, weighted, wname, before, what)
    if ctx.violations or rng.random() < 0.6 or len(g) < 3:
        return
    # and again after the graph has changed
    g.remove_node(rng.choice([n for n in g]))
    have = {g.nodes[n][attr] for n in g} | ({src} if src is not None else set())
    if len(have) != 2:
        return
    ctx.count('tnet_again')
    before = ref.graphOf(g)
    for n in before[0]:
        before[0][n].pop(idx, None)
    p = rng.choice([p, ctx.path('t2.txt')])
    mk.writeTnetFile(g, p, attr, **kw)
    judgeTnet(ctx, g, p, attr, src, idx, timed, weighted, wname, before, what + ' again without a node')


def judgeTnet(ctx, g, p, attr, src, idx, timed, weighted, wname, before, what):
    first = src if src is not None else g.nodes[next(iter(g))][attr]
    number = {n: g.nodes[n].get(idx) for n in g}
    ctx.eq(sorted(number.values(), key=str), sorted(range(1, len(g) + 1), key=str), 'tnet-numbers', what)
    after = ref.graphOf(g)
    for n in after[0]:
        after[0][n].pop(idx, None)
    ctx.check(after == before, 'graph-changed', what)
    want = collections.Counter()
    for e in (g.edges(keys=True, data=True) if timed else g.edges(data=True)):
        a, b = e[0], e[1]
        if g.nodes[a][attr] != first:
            a, b = b, a
        want[('"{}" '.format(e[2]) if timed else '') + '{} {}'.format(number[a], number[b]) + (' {}'.format(e[-1][wname]) if weighted else '')] += 1
    got = collections.Counter(ctx.read(p).decode('utf-8').split('\n')[:-1])
    ctx.eq(got, want, 'tnet-lines', what)
    if want:
        ctx.sig('tnet', type(g).__name__, sorted(want), sorted(map(str, g)))


def case(rng, ctx):
    if rng.random() < 0.25:
        tnet(rng, ctx)
    else:
        files(rng, ctx)
