"""Diffusion: who of one collection is cited by whom of another."""
import collections
from mkmon import citenet as cn, gen, ref

ID = 'P20'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 15000, 250000
RULE = ('Random source and target collections (apart, overlapping or the same) of 0-9 Web of Science records citing each other in several spellings; diffusion counts by record or field, with values of a '
        'second field, local comparison, tables and first or all authors, diffusion graphs by fields with and without labels and weights, and counts added to graphs are compared with counts over the described '
        'citations. Non-trivial: a source is cited.')
ASSUMPTIONS = ['No two sources share their own citation, and lists hold no value twice.', 'Edges go from the cited to the citing, as the counts do; labels are the citing record\'s.',
               'Diffusion graphs are judged for fields that hold lists; the others are a known finding.']
REQUIRED = ['counts', 'graphs', 'added', 'raw', 'by_field', 'by_list', 'extra', 'compared', 'tables', 'first_author', 'overlapping', 'cited', 'labelled', 'unweighted', 'bad_arguments', 'mapped', 'same_collection', 'both_source_and_target', 'counted_before', 'first_author_compared']
LISTS = ['AU', 'AF', 'DE', 'ID', 'SC', 'WC', 'CR', 'authorsShort', 'authorsFull', 'citations']
SINGLES = ['UT', 'J9', 'SO', 'TI', 'year', 'PY', 'DT', 'LA', 'VL', 'title', 'j9', 'wosString', 'id', 'ZZ']
SECOND = ['PY', 'year', 'J9', 'DE', 'AU', 'SC', 'UT', 'ZZ', 'LA']


def k(v):
    if isinstance(v, gen.Cit):
        return ('cite', v.id)
    if hasattr(v, 'isAnonymous'):
        return ('cite', v.ID())
    if hasattr(v, 'sourceLine'):
        return ('rec', v.id)
    return v


def vals(r, tag):
    """The values of a source or target under a type, as keys, without repeats"""
    if tag == 'raw':
        return [('rec', r.id)]
    if tag == 'wosString':
        return [r.id]
    v = ref.wosGet(r, tag)
    return list(collections.OrderedDict.fromkeys(k(x) for x in ref.asList(v)))


def countsOf(source, target, tag, extra, mapping, everyone):
    byCite = {}
    for s in source:
        for c in (ref.selfCites(s) if everyone else [ref.selfCite(s)]):
            byCite[c.id] = s
    n = {}
    for s in source:
        for v in vals(s, tag):
            n.setdefault(v, collections.Counter() if extra is not None else 0)
    for t in target:
        for c in t.cites:
            if c.id in byCite:
                for v in vals(byCite[c.id], tag):
                    if extra is None:
                        n[v] += 1
                    else:
                        n[v]['TargetCount'] += 1
                        for x in ref.asList(ref.wosGet(t, extra)):
                            n[v][mapping(ref.strVal(x) if isinstance(x, gen.Cit) else x)] += 1
    if extra is not None:
        n = {a: dict(b) if b else {'TargetCount': 0} for a, b in n.items()}
    return n


def unkey(d):
    return {k(a): b for a, b in d.items()}


def case(rng, ctx):
    import metaknowledge as mk
    recs, RC = cn.records(rng, ctx, mutual=0.8)
    for r in recs:          # no value twice in a list
        for tag in ('AU', 'AF'):
            if tag in r.tags:
                r.tags[tag] = gen.uniq(r.tags[tag])
    if any('DE' in r.tags and len(set(ref.wosGet(r, 'DE'))) < len(ref.wosGet(r, 'DE')) for r in recs):
        for r in recs:
            r.tags.pop('DE', None)
    Rs = {r.id: mk.WOSRecord(r.text()) for r in recs}
    lists = [t for t in LISTS if t not in ('CR', 'citations') or all(len({c.id for c in r.cites}) == len(r.cites) for r in recs)]
    pool, ids = [], set()
    for r in recs:
        mine = {c.id for c in ref.selfCites(r)} | {ref.selfCite(r).id}
        if not mine & ids:
            ids |= mine
            pool.append(r)
    way = rng.random()
    if way < 0.2:
        source = target = pool
        ctx.count('same_collection')
    elif way < 0.5:
        source = [r for r in pool if rng.random() < 0.6]
        target = [r for r in recs if r not in source]
    else:
        source = [r for r in pool if rng.random() < 0.7]
        target = [r for r in recs if rng.random() < 0.7]
        ctx.count('overlapping', int(any(r in source for r in target)))
    S = mk.RecordCollection([Rs[r.id] for r in source], name='s')
    T = S if source is target else mk.RecordCollection([Rs[r.id] for r in target], name='t')
    what = rng.choice(['counts', 'counts', 'counts', 'graphs', 'graphs', 'added'])
    ctx.count(what)
    cited = {ref.selfCite(s).id for s in source} & {c.id for t in target for c in t.cites}
    ctx.count('cited', len(cited))
    if what == 'counts':
        tag = rng.choice(['raw', 'raw', 'raw'] + [rng.choice(lists), rng.choice(lists), rng.choice(SINGLES)])
        if tag == 'wosString':
            tag = 'UT'
        ctx.count('raw' if tag == 'raw' else 'by_list' if tag in LISTS else 'by_field')
        extra = rng.choice(SECOND) if rng.random() < 0.45 else None
        mapping = lambda x: x
        kw = {}
        if tag != 'raw' or rng.random() < 0.3:
            kw['sourceType'] = tag
        if extra is not None:
            ctx.count('extra')
            kw['extraValue'] = extra
            if rng.random() < 0.3:
                ctx.count('mapped')
                mapping = lambda x: str(x)[:3]
                kw['extraMapping'] = mapping
        everyone = rng.random() < 0.6
        if not everyone:
            kw['useAllAuthors'] = False
            ctx.count('first_author')
        compare = rng.random() < 0.4
        if compare:
            kw['compareCounts'] = True
            ctx.count('compared')
            ctx.count('first_author_compared', int(not everyone and any(c.id in ids and c.id not in {ref.selfCite(x).id for x in source} for r in source for c in r.cites)))
        want = countsOf(source, target, tag, extra, mapping, everyone)
        local = countsOf(source, source, tag, extra, mapping, everyone)
        desc = lambda: 'diffusion counts of {} into {} with {}'.format([r.id for r in source], [r.id for r in target], {a: b for a, b in kw.items() if a != 'extraMapping'})
        if rng.random() < 0.5:
            got = unkey(mk.diffusionCount(S, T, **kw))
            ctx.eq(got, {v: (n, local[v]) for v, n in want.items()} if compare else want, 'counts', desc)
        else:
            ctx.count('tables')
            num = rng.random() < 0.7
            if not num:
                kw['numAuthors'] = False
            got = mk.diffusionCount(S, T, pandasFriendly=True, **kw)
            lens = {len(v) for v in got.values()}
            if not ctx.check(len(lens) == 1, 'table-lengths', lambda: '{}: {}'.format(desc(), {a: len(b) for a, b in got.items()})):
                return
            rows = []
            for v, n in want.items():
                for x, c in ([(None, n)] if extra is None else n.items()):
                    row = {'v': v, 'TargetCount': c}
                    if compare:
                        row['SourceCount'] = local[v] if extra is None else local[v].get(x, 0)
                    if extra is not None:
                        row[extra] = x
                    if tag == 'raw' and num:
                        s = next(r for r in source if r.id == v[1])
                        row['numAuthors'] = len(ref.asList(ref.wosGet(s, 'AU')))
                    rows.append(row)
            n = lens.pop()
            cols = {'TargetCount'} | ({'SourceCount'} if compare else set()) | ({extra} if extra is not None else set()) | ({'numAuthors'} if tag == 'raw' and num else set())
            if tag == 'raw':
                tags = set().union(*[set(r.tags) for r in source]) if source else set()
                tags.discard(extra)     # the column of that name holds the extra values
                ctx.eq(set(got), cols | tags, 'table-columns', desc)
                if 'UT' not in tags:
                    return
                gotRows = [dict([(c, got[c][i]) for c in cols], v=('rec', got['UT'][i])) for i in range(n)]
                for i in range(n):
                    s = next((r for r in source if r.id == got['UT'][i]), None)
                    if not ctx.check(s is not None, 'table-record', desc):
                        return
                    for t in tags:
                        w = ref.wosGet(s, t)
                        g = got[t][i]
                        if t == 'CR':
                            ctx.eq(None if g is None else [c.ID() for c in g], None if w is None else [c.id for c in w], 'table-field', lambda: '{}: {} of {}'.format(desc(), t, s.id))
                        else:
                            ctx.eq(g, w, 'table-field', lambda: '{}: {} of {}'.format(desc(), t, s.id))
            else:
                if tag == extra:
                    return
                if n or source:
                    ctx.eq(set(got), cols | {tag}, 'table-columns', desc)
                gotRows = [dict([(c, got[c][i]) for c in cols], v=k(got[tag][i])) for i in range(n)]
            f = lambda l: collections.Counter(repr(sorted(r.items())) for r in l)
            ctx.eq(f(gotRows), f(rows), 'table', desc)
        if cited:
            ctx.sig(what, tag, extra, sorted(map(repr, want.items())))
            ctx.sample({'sources': len(source), 'targets': len(target), 'cited': len(cited), 'by': tag, 'extra': extra})
    elif what == 'graphs':
        sT, tT = rng.choice(lists), rng.choice(lists)
        label = rng.choice(['PY', 'J9', 'DE', 'year', 'AU', 'SC']) if rng.random() < 0.35 else None
        weighted = rng.random() < 0.7
        ctx.count('labelled', int(label is not None))
        ctx.count('unweighted', int(not weighted))
        kw = {'sourceType': sT, 'targetType': tT}
        if label:
            kw['labelEdgesBy'] = label
        if not weighted:
            kw['weighted'] = False
        nodes, edges = {}, collections.Counter()
        byCite = {ref.selfCite(s).id: s for s in source}
        for s in source:
            for v in vals(s, sT):
                nodes[v] = {'source': True, 'target': False}
        for t in target:
            labels = [None]
            if label:
                labels = [str(x) for x in ref.asList(ref.wosGet(t, label))]
                if ref.wosGet(t, label) is None:
                    continue
            for v in vals(t, tT):
                nodes.setdefault(v, {'source': False, 'target': True})['target'] = True
                for c in t.cites:
                    if c.id in byCite:
                        s = byCite[c.id]
                        for sv in vals(s, sT):
                            for l in labels:
                                edges[(sv, v) if label is None else ((sv, v), l)] += 1
        ctx.count('both_source_and_target', sum(1 for d in nodes.values() if d['source'] and d['target']))
        G = mk.diffusionGraph(S, T, **kw)
        desc = lambda: 'diffusion graph of {} into {} with {}'.format([r.id for r in source], [r.id for r in target], kw)
        ctx.check(G.is_directed() and G.is_multigraph() == (label is not None), 'graph-kind', desc)
        gn = {k(n): dict(d) for n, d in G.nodes(data=True)}
        ctx.check(len(gn) == len(G), 'graph-split', desc)
        ctx.eq(gn, nodes, 'graph-nodes', desc)
        if label is None:
            ge = {(k(a), k(b)): dict(d) for a, b, d in G.edges(data=True)}
        else:
            ge = {((k(a), k(b)), key): dict(d) for a, b, key, d in G.edges(keys=True, data=True)}
        ctx.eq(ge, {e: {'weight': n} if weighted else {} for e, n in edges.items()}, 'graph-edges', desc)
        if edges:
            ctx.sig(what, sorted(map(repr, kw.items())), sorted(map(repr, edges.items())))
    else:
        import networkx as nx
        tag = rng.choice(['UT', 'J9', 'SO', 'AU', 'AF', 'DE', 'SC', 'WC', 'TI'])
        extra = rng.choice(['PY', 'J9', 'year', 'AU']) if rng.random() < 0.5 else None
        G = nx.Graph()
        have = gen.uniq(v for r in recs for v in vals(r, tag))
        for v in rng.sample(have, rng.randint(0, len(have))) + ['somewhere else']:
            G.add_node(v, own='kept')
            if rng.random() < 0.2:
                # counts of an earlier time
                G.nodes[v][rng.choice(['DiffusionCount', 'DiffusionCount', 'spread', 1999, 'NATURE'])] = rng.randint(1, 9)
                ctx.count('counted_before')
        before = {n: dict(d) for n, d in G.nodes(data=True)}
        want = countsOf(source, target, tag, extra, lambda x: x, True)
        kw = {'nodeType': tag}
        label = 'DiffusionCount'
        if rng.random() < 0.3:
            kw['diffusionLabel'] = label = 'spread'
        zero = []
        if extra is not None:
            kw['extraType'] = extra
            if rng.random() < 0.4:
                kw['extraKeys'] = zero = [1999, 'NATURE', 'none']
        pre = rng.random() < 0.25
        if pre:
            kw['countsDict'] = mk.diffusionCount(S, T, sourceType=tag, extraValue=extra)
        desc = lambda: 'counts of {} into {} added to {} with {}'.format([r.id for r in source], [r.id for r in target], list(before), {a: b for a, b in kw.items() if a != 'countsDict'})
        ret = mk.diffusionAddCountsFromSource(G, S, T, **kw)
        ctx.eq(unkey(ret), want, 'added-return', desc)
        wantN = {}
        for n, d in before.items():
            d = dict(d)
            if extra is None:
                d[label] = want.get(n, 0)
            else:
                d.update({z: 0 for z in zero})
                d[label] = 0
                for x, c in want.get(n, {}).items():
                    d[label if x == 'TargetCount' else x] = c
            wantN[n] = d
        ctx.eq({n: dict(d) for n, d in G.nodes(data=True)}, wantN, 'added', desc)
        if cited:
            ctx.sig(what, tag, extra, sorted(map(repr, wantN.items())))
    if rng.random() < 0.02:
        ctx.count('bad_arguments')
        for f in (lambda: mk.diffusionGraph(S, T, sourceType='nonsense tag'), lambda: mk.diffusionGraph(S, T, targetType='nonsense tag'), lambda: mk.diffusionGraph(S, T, labelEdgesBy='nonsense tag'),
                  lambda: mk.diffusionCount(S, [1, 2]), lambda: mk.diffusionCount([1, 2], T), lambda: mk.diffusionCount(S, T, sourceType=12), lambda: mk.diffusionCount(S, T, extraValue=12)):
            try:
                f()
            except RuntimeError as e:
                ctx.check('ecordCollection' in str(e) or 'tag' in str(e) or 'Tag' in str(e), 'bad-argument-told', lambda: 'a bad argument is called {!r}'.format(str(e)))
            else:
                ctx.fail('bad-argument', 'a bad argument was accepted')


def probeSingles(rng, ctx):
    """Nodes of fields that hold no list, and of records"""
    import metaknowledge as mk
    a = mk.WOSRecord('PT J\nAU Smith, J\nPY 2001\nJ9 J ONE\nVL 1\nBP 1\nUT WOS:1\nER\n')
    b = mk.WOSRecord('PT J\nAU Jones, K\nPY 2002\nJ9 J TWO\nCR Smith J, 2001, J ONE, V1, P1\nUT WOS:2\nER\n')
    S, T = mk.RecordCollection([a]), mk.RecordCollection([b])
    g = mk.diffusionGraph(S, T)
    h = mk.diffusionGraph(S, T, sourceType='UT', targetType='UT')
    if not (set(g) == {a, b} and list(g.edges()) == [(a, b)] and set(h) == {'WOS:1', 'WOS:2'} and list(h.edges()) == [('WOS:1', 'WOS:2')]):
        known = set(g) == set(a) | set(b) and set(h) == set('WOS:12')
        ctx.fail('diffusion-nodes' if known else 'diffusion-nodes-other', 'nodes of records: {}; of accession numbers: {}'.format(sorted(map(str, g))[:6], sorted(h)))


PROBES = {'diffusion-nodes': probeSingles}
