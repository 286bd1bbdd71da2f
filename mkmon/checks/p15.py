"""Bibliographic coupling connects two records once per work they both cite."""
from mkmon import citenet as cn, ref

ID = 'P15'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 15000, 250000
RULE = ('Random collections of 0-9 Web of Science or Scopus records or both citing each other and shared works under several spellings, with and without weights, full information and citation lists; nodes, attributes, '
        'edges and weights are compared with the number of distinct works two records share. Non-trivial: the network has an edge.')
ASSUMPTIONS = ['A record that neither cites nor is cited is not in the network.', 'Records with the same own citation are one node.']
REQUIRED = ['edges', 'weights_above_one', 'unweighted', 'full_info', 'citation_lists', 'isolated_nodes', 'repeated_citations', 'same_own_citation', 'scopus_records']


def case(rng, ctx):
    import networkx as nx
    recs, RC = cn.records(rng, ctx, mutual=0.6, scopus=0.3)
    core = cn.coreOf(recs)
    weighted, full, addCR = rng.random() < 0.7, rng.random() < 0.4, rng.random() < 0.4
    o = {'nodeType': 'full', 'dropAnon': False, 'nodeInfo': True, 'fullInfo': full, 'weighted': weighted, 'dropNonJournals': False, 'count': False, 'keyWords': None, 'detailedCore': True,
         'detailedCoreAttributes': False, 'coreOnly': False, 'addCR': addCR}
    ctx.count('same_own_citation', int(any(len(l) > 1 for l in core.values())))
    ctx.count('unweighted', int(not weighted))
    ctx.count('full_info', int(full))
    ctx.count('citation_lists', int(addCR))
    w = cn.Want()
    cited = {}
    for r in recs:
        if not r.cites:
            continue
        own = ref.selfCite(r)
        h = w.node(own, o, core)
        cited.setdefault(h, set())
        for c in r.cites:
            if c.id in core:
                w.node(c, o, core)
            if c.id in cited[h]:
                ctx.count('repeated_citations')
            cited[h].add(c.id)
    hs = sorted(cited)
    for i, a in enumerate(hs):
        for b in hs[i + 1:]:
            n = len(cited[a] & cited[b])
            if n:
                w.edges[ref.edgeKey(a, b)] = {'weight': n} if weighted else {}
                ctx.count('weights_above_one', int(n > 1))
    g = RC.networkBibCoupling(weighted=weighted, fullInfo=full, addCR=addCR)
    what = lambda: 'coupling network (weighted {}, fullInfo {}, addCR {})'.format(weighted, full, addCR)
    ctx.check(type(g) is nx.Graph, 'graph-type', lambda: str(type(g)))
    w.judge(ctx, g, o, what)
    ctx.count('edges', len(w.edges))
    ctx.count('isolated_nodes', sum(1 for n in g if not g.degree(n)))
    if w.edges:
        ctx.sig(sorted(cited.items()), weighted, full)
        ctx.sample({'records': len(recs), 'nodes': len(g), 'edges': g.size(), 'weighted': weighted})
