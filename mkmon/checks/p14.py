"""Citation networks connect every record with exactly what it cites."""
from mkmon import citenet as cn, queries as q, ref

ID = 'P14'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 15000, 250000
RULE = ('Random collections of 0-9 Web of Science or Scopus records or both citing each other, themselves and shared works under several spellings, with random options (direction, node type, filters, keywords, counts, '
        'weights, node information, core options); nodes, attributes, directed edges, weights and year differences are compared with the described citations; the records citing a work are compared with the '
        'described ones. Non-trivial: the network has an edge.')
ASSUMPTIONS = ['Where several spellings or records share a node, its descriptive attributes are those of any of them.', 'A record without citations adds nothing.',
               'With expanded cores only the nodes of the co-authors, the edges between them and the presence of the plain network are required.']
REQUIRED = ['type_full', 'type_original', 'type_author', 'type_journal', 'type_year', 'edges', 'core_only', 'expanded', 'keywords', 'reversed', 'undirected', 'self_citations', 'mutual', 'local_cites', 'same_own_citation', 'year_differences', 'scopus_records', 'scopus_unread', 'anonymous_records']


def case(rng, ctx):
    import networkx as nx
    import metaknowledge as mk
    recs, RC = cn.records(rng, ctx, mutual=0.7, scopus=0.3)
    core = cn.coreOf(recs)
    ctx.count('same_own_citation', int(any(len(l) > 1 for l in core.values())))
    o = cn.options(rng)
    directed, toCite = rng.random() < 0.7, rng.random() < 0.7
    w = cn.Want()
    for r in recs:
        own = ref.selfCite(r)
        if not cn.keep([own], o, core) or not r.cites:
            continue
        h = w.node(own, o, core)
        for c in cn.keep(r.cites, o, core):
            n = w.node(c, o, core)
            a, b = (h, n) if toCite else (n, h)
            d = w.edges.setdefault(ref.edgeKey(a, b, not directed), {})
            if h == n:
                ctx.count('self_citations')
            if o['weighted']:
                d['weight'] = d.get('weight', 0) + 1
                if o['nodeType'] in ('full', 'original'):
                    d['yearDiff'] = abs(own.year - c.year) if own.year is not None and c.year is not None else None
                    ctx.count('year_differences', int(d['yearDiff'] is not None))
    ctx.count('type_' + o['nodeType'])
    ctx.count('core_only', int(o['coreOnly']))
    ctx.count('keywords', int(bool(o['keyWords'])))
    ctx.count('reversed', int(not toCite))
    ctx.count('undirected', int(not directed))
    what = lambda: 'citation network (directed {}, recordToCite {}) with {}'.format(directed, toCite, o)
    g = RC.networkCitation(directed=directed, recordToCite=toCite, **o)
    ctx.check(type(g) is (nx.DiGraph if directed else nx.Graph), 'graph-type', lambda: str(type(g)))
    w.judge(ctx, g, o, what)
    ctx.count('edges', len(w.edges))
    ctx.count('mutual', sum(1 for c in core if any(c == x.id for r in recs for x in r.cites)))
    if rng.random() < 0.1 and o['nodeType'] in ('full', 'original', 'author'):
        ctx.count('expanded')
        G = RC.networkCitation(directed=directed, recordToCite=toCite, expandedCore=True, **o)
        for r in recs:
            cs = [cn.nodeId(c, o['nodeType']) for c in ref.selfCites(r)]
            if len(cs) > 1 and cs[0] in g:
                ctx.check(set(cs) <= set(G), 'expanded-nodes', lambda: '{}: co-authors {} not all in the expanded network'.format(what(), cs))
                ctx.check(all(G.has_edge(a, b) for i, a in enumerate(cs) for b in cs[i + 1:] if a != b), 'expanded-edges', lambda: '{}: co-authors {} not all connected in the expanded network'.format(what(), cs))
        groups = [cs for cs in ([cn.nodeId(c, o['nodeType']) for c in ref.selfCites(r)] for r in recs) if len(cs) > 1]
        for cs in groups:
            alone = sum(1 for x in groups if set(x) & set(cs)) == 1
            if o['weighted'] and alone and len(cs) == 2 and cs[0] != cs[1] and cs[0] in g and not g.has_edge(*cs) and G.has_edge(*cs) and not G.has_edge(cs[0], cs[0]):
                ctx.count('expanded_pairs')
                ctx.eq(G.get_edge_data(*cs).get('weight'), 1, 'expanded-weight', lambda: '{}: two authors of one record'.format(what()))
        for n in set(G) - set(g):
            # an author who is new is described as one of the others is
            ctx.check(any(n in cs and any(m != n and m in G and G.nodes[m] == G.nodes[n] for m in cs) for cs in groups), 'expanded-attributes', lambda: '{}: node {!r} has {}, other authors {}'.format(what(), n, dict(G.nodes[n]), [{m: dict(G.nodes[m]) for m in cs if m in G} for cs in groups if n in cs]))
        ctx.check(set(g) <= set(G) and all(G.has_edge(a, b) for a, b in g.edges()), 'expanded-lost', lambda: '{}: expanding removed something'.format(what()))
    # who cites what
    texts = [c for r in recs for c in r.cites]
    for _ in range(3):
        kind = rng.choice(['record', 'id', 'text', 'citation', 'none'])
        ctx.count('local_cites')
        if kind in ('record', 'id') and recs:
            r = rng.choice(recs)
            target = ref.selfCite(r)
            arg = RC.getID(r.id) if kind == 'record' else r.id
        elif texts:
            target = rng.choice(texts)
            scopus = isinstance(target, cn.gen.SCit)
            if scopus and kind == 'text':
                continue
            if kind == 'none':
                target, scopus = cn.ref.Cit('NOBODY X', 1901, 'NOWHERE'), False
            arg = target.text if kind == 'text' else mk.Citation(target.text, scopusMode=scopus)
        else:
            continue
        got = RC.localCitesOf(arg)
        ctx.eq({R.id for R in got}, {r.id for r in recs if any(c.id == target.id for c in r.cites)}, 'local-cites', lambda: 'records citing {!r} given as {}:'.format(target.text, kind))
        ctx.check(type(got) is mk.RecordCollection and all(any(R is X for X in RC) for R in got), 'local-cites-members', 'not the same records')
        if rng.random() < 0.1:
            q.apart(rng, ctx, RC, got, 'local-cites-apart', 'localCitesOf')
            break
    if w.edges:
        ctx.sig(o, directed, toCite, sorted(map(repr, w.count.items())), len(w.edges))
        ctx.sample({'options': o, 'directed': directed, 'records': len(recs), 'nodes': len(g), 'edges': g.size()})


def scopusLinks(rng, ctx):
    """A Scopus reference to a record of the collection leads to another node than the record"""
    import metaknowledge as mk
    a, y = rng.choice('ABC'), rng.randint(1990, 2010)
    head = ','.join(cn.gen.SCOPUS_HEADER) + '\n'
    recs = [cn.gen.Sco({'Authors': 'Smith {}.'.format(a), 'Title': 'Glass', 'Year': str(y), 'Source title': 'Nature', 'References': 'Fox, Q., Light (1980) Cell, 3, p. 1', 'EID': '2-s2.0-1'}),
            cn.gen.Sco({'Authors': 'Jones B.', 'Title': 'More glass', 'Year': str(y + 1), 'Source title': 'Nature', 'References': 'Smith, {}., Glass ({}) Nature'.format(a, y), 'EID': '2-s2.0-2'})]
    f = ctx.write('s.csv', '\ufeff' + head + ''.join(r.text() for r in recs))
    g = mk.RecordCollection(f).networkCitation()
    if len(g) != 3:
        old = sorted(g) == sorted(['FOX, Q., 1980, CELL', 'JONES B., {}, NATURE'.format(y + 1), 'SMITH {}., {}, NATURE'.format(a, y), 'SMITH, {}., {}, NATURE'.format(a, y)])
        ctx.fail('scopus-links' if old else 'scopus-links-other', 'the network of two records, one citing the other, has the nodes {}'.format(sorted(g)))


PROBES = {'scopus-links': scopusLinks}
