"""Co-citation networks connect exactly the citations that occur together in a record."""
from mkmon import citenet as cn, ref

ID = 'P13'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 15000, 250000
RULE = ('Random collections of 0-9 Web of Science or Scopus records or both citing each other and shared works under several spellings, with random options (node type, filters, keywords, counts, weights, node '
        'information, core options); nodes, their attributes, edges and weights are compared with counts over the described citations. Non-trivial: the network has an edge.')
ASSUMPTIONS = ['Where several spellings or records share a node, its descriptive attributes are those of any of them.',
               'With expanded cores only the nodes of the co-authors, the edges between them and the presence of the plain network are required.']
REQUIRED = ['type_full', 'type_original', 'type_author', 'type_journal', 'type_year', 'edges', 'core_only', 'expanded', 'keywords', 'filtered_out', 'unweighted', 'core_nodes', 'bad_arguments', 'scopus_records', 'scopus_unread']


def case(rng, ctx):
    import networkx as nx
    import metaknowledge as mk
    recs, RC = cn.records(rng, ctx, scopus=0.3)
    core = cn.coreOf(recs)
    o = cn.options(rng)
    expanded = rng.random() < 0.1 and o['nodeType'] in ('full', 'original', 'author')
    w = cn.Want()
    for r in recs:
        left = cn.keep(r.cites, o, core)
        ctx.count('filtered_out', len(r.cites) - len(left))
        ids = [w.node(c, o, core) for c in left]
        for i, a in enumerate(ids):
            for b in ids[i + 1:]:
                d = w.edges.setdefault(ref.edgeKey(a, b), {})
                if o['weighted']:
                    d['weight'] = d.get('weight', 0) + 1
    ctx.count('type_' + o['nodeType'])
    ctx.count('core_only', int(o['coreOnly']))
    ctx.count('keywords', int(bool(o['keyWords'])))
    ctx.count('unweighted', int(not o['weighted']))
    what = lambda: 'co-citation network with {}'.format(o)
    g = RC.networkCoCitation(**o)
    ctx.check(type(g) is nx.Graph, 'graph-type', lambda: str(type(g)))
    w.judge(ctx, g, o, what)
    ctx.count('edges', len(w.edges))
    ctx.count('core_nodes', sum(1 for n, d in g.nodes(data=True) if d.get('inCore')))
    if expanded:
        ctx.count('expanded')
        G = RC.networkCoCitation(expandedCore=True, **o)
        must = set(g)
        for r in recs:
            cs = [cn.nodeId(c, o['nodeType']) for c in ref.selfCites(r)]
            if len(cs) > 1 and cs[0] in must:
                ctx.check(set(cs) <= set(G), 'expanded-nodes', lambda: '{}: co-authors {} not all in the expanded network'.format(what(), cs))
                ctx.check(all(G.has_edge(a, b) for i, a in enumerate(cs) for b in cs[i + 1:] if a != b), 'expanded-edges', lambda: '{}: co-authors {} not all connected in the expanded network'.format(what(), cs))
        groups = [cs for cs in ([cn.nodeId(c, o['nodeType']) for c in ref.selfCites(r)] for r in recs) if len(cs) > 1]
        for cs in groups:
            alone = sum(1 for x in groups if set(x) & set(cs)) == 1
            if o['weighted'] and alone and len(cs) == 2 and cs[0] != cs[1] and cs[0] in g and not g.has_edge(*cs) and G.has_edge(*cs) and not G.has_edge(cs[0], cs[0]):
                ctx.count('expanded_pairs')
                ctx.eq(G.get_edge_data(*cs).get('weight'), 1, 'expanded-weight', lambda: '{}: two authors of one record'.format(what()))
        ctx.check(must <= set(G) and all(G.has_edge(a, b) for a, b in g.edges()), 'expanded-lost', lambda: '{}: expanding removed something'.format(what()))
        extra = set(G) - must
        for n in extra:
            # an author who is new is described as one of the others is
            ctx.check(any(n in cs and any(m != n and m in G and G.nodes[m] == G.nodes[n] for m in cs) for cs in groups), 'expanded-attributes', lambda: '{}: node {!r} has {}, other authors {}'.format(what(), n, dict(G.nodes[n]), [{m: dict(G.nodes[m]) for m in cs if m in G} for cs in groups if n in cs]))
        ctx.check(extra <= {cn.nodeId(c, o['nodeType']) for r in recs for c in ref.selfCites(r)}, 'expanded-extra', lambda: '{}: unexpected nodes {}'.format(what(), extra))
    if rng.random() < 0.03:
        ctx.count('bad_arguments')
        for bad in ('Full', 'title', '', None):
            try:
                RC.networkCoCitation(nodeType=bad)
            except mk.RCValueError:
                pass
            else:
                ctx.fail('bad-argument', 'node type {!r} accepted'.format(bad))
    if w.edges:
        ctx.sig(o, sorted(map(repr, w.count.items())), len(w.edges))
        ctx.sample({'options': {k: v for k, v in o.items()}, 'records': len(recs), 'nodes': len(g), 'edges': g.size()})
