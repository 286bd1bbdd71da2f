"""Questions that can be put to collections and graphs, as (name, function, arguments that must stay as they are)."""
import copy
import os
import threading
import networkx as nx
from . import ref


LOCAL = threading.local()


def out(name):
    """The file a question writes to; every thread has its own"""
    return getattr(LOCAL, 'prefix', '') + name


def canon(v, depth=0):
    """A value that two equal answers share, whatever order sets and graphs came in"""
    import metaknowledge as mk
    if isinstance(v, (str, int, float, bool, bytes, type(None))):
        return repr(v)
    if isinstance(v, nx.Graph):
        return ('graph', v.is_directed(), v.is_multigraph(), sorted((repr(canon(n)), repr(canon(d))) for n, d in v.nodes(data=True)),
                sorted((repr(sorted((repr(canon(a)), repr(canon(b)))) if not v.is_directed() else (canon(a), canon(b))), repr(canon(d))) for a, b, d in v.edges(data=True)))
    if isinstance(v, (mk.RecordCollection, mk.GrantCollection)):
        return ('collection', type(v).__name__, v.name, v.bad, sorted(str(x.id) for x in v))
    if isinstance(v, mk.Citation):
        return ('citation', str(v), v.original)
    if isinstance(v, mk.Record):
        return ('record', type(v).__name__, v.id)
    if isinstance(v, dict):
        vals = list(v.values())
        if len(vals) > 1 and all(isinstance(x, list) for x in vals) and len({len(x) for x in vals}) == 1 and all(isinstance(k, str) for k in v):
            return ('table', sorted(v), sorted(repr([canon(v[k][i]) for k in sorted(v)]) for i in range(len(vals[0]))))
        return ('dict', sorted((repr(canon(k)), repr(canon(x))) for k, x in v.items()))
    if isinstance(v, (set, frozenset)):
        return ('set', sorted(repr(canon(x)) for x in v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [canon(x) for x in v])
    return repr(v)


def bag(v):
    """A list whose order nobody promises"""
    return sorted(repr(canon(x)) for x in v)


def state(C):
    """Everything a collection holds"""
    recs = {}
    for R in C:
        recs[id(R)] = (type(R).__name__, str(R.id), repr(ref.rawDict(R)) if hasattr(R, 'bibString') else repr(dict(R.items())), bool(R.bad), R.sourceFile, R.sourceLine)
    return {'records': recs, 'name': C.name, 'bad': C.bad, 'errors': {k: str(v) for k, v in C.errors.items()}, 'n': len(C)}


def apart(rng, ctx, source, result, mech, what):
    """What is done to a collection made from another does not show there, nor the other way"""
    import metaknowledge as mk
    for a, b in ((result, source), (source, result)):
        if a is b:
            ctx.fail(mech, '{}: the result is the collection itself'.format(what() if callable(what) else what))
            return
        was = state(b)
        k = rng.randint(0, 4)
        if k == 0 and len(a):
            a.pop()
        elif k == 1:
            a.add(mk.WOSRecord({'UT': ['WOS:APART'], 'TI': ['Apart']}))
        elif k == 2:
            a.clear()
        elif k == 3:
            for R in list(a)[:2]:
                a.discard(R)
        else:
            a.bad, a.name = True, 'renamed'
            a.errors['apart'] = 'error'
        ctx.eq(state(b), was, mech, what)
    ctx.count('kept_apart')


def fileText(p):
    with open(p, 'rb') as f:
        return f.read()


def written(*names):
    """The contents of the files, which are removed"""
    out = []
    for n in names:
        data = fileText(n)
        os.remove(n)
        out.append(sorted(data.split(b'\n')))
    return out


def collectionQuery(rng, tags):
    """(name, function of (collection, second collection), mutable arguments)"""
    T = lambda: rng.choice(tags)
    k = rng.randint(0, 34)
    args = []
    if k == 0:
        ts = [T() for _ in range(rng.randint(0, 2))]
        c = rng.random() < 0.5
        return 'glimpse', lambda C, D: None if C.glimpse(*ts, compact=c) is None else [ln for ln in C.glimpse(*ts, compact=c).split('\n') if 'glimpse made at' not in ln], args
    if k == 1:
        t = T()
        kw = {'pandasMode': rng.random() < 0.5, 'greatestFirst': rng.random() < 0.5}
        lim = rng.choice([None, ['English', 'Smith, J']])
        args.append(lim)

        def f(C, D):
            r = C.rankedSeries(t, limitTo=lim, **kw)
            return r if kw['pandasMode'] else bag(r)
        return 'rankedSeries', f, args
    if k == 2:
        t = rng.choice([T(), None])
        lim = rng.choice([False, ['English']]) if t is not None else False
        args.append(lim)
        return 'timeSeries', lambda C, D: C.timeSeries(t, limitTo=lim, pandasMode=True), args
    if k == 3:
        a, bs = T(), [T() for _ in range(rng.randint(1, 3))]
        args.append(bs)
        return 'cooccurrenceCounts', lambda C, D: C.cooccurrenceCounts(a, *bs), args
    if k == 4:
        a = T()
        return 'networkOneMode', lambda C, D: C.networkOneMode(a, edgeAttribute=None), args
    if k == 5:
        a, b = T(), T()
        d = rng.random() < 0.5
        return 'networkTwoMode', lambda C, D: C.networkTwoMode(a, b, directed=d), args
    if k == 6:
        ts = [T() for _ in range(rng.randint(1, 3))]
        return 'networkMultiMode', lambda C, D: C.networkMultiMode(*ts), args
    if k == 7:
        ts = [T() for _ in range(rng.randint(1, 3))]
        attr = rng.choice([None, None, 'year', ['year', 'LA'], ['title']])
        args.append(attr)
        return 'networkMultiLevel', lambda C, D: C.networkMultiLevel(*ts, nodeAttribute=attr if isinstance(attr, str) or attr is None else attr[0], edgeAttribute=None), args
    if k == 8:
        kw = {'detailedInfo': rng.choice([False, True, ['title', 'year']]), 'useShortNames': rng.random() < 0.5, 'dropNonJournals': rng.random() < 0.3}
        args.append(kw)
        return 'networkCoAuthor', lambda C, D: C.networkCoAuthor(**kw), args
    if k in (9, 10):
        kw = {'nodeType': rng.choice(['full', 'original', 'author', 'year', 'journal']), 'dropNonJournals': rng.random() < 0.2, 'keyWords': rng.choice([None, 'SMITH', ['PHYS', 'NATURE']]),
              'detailedCore': rng.choice([True, False, ['AU', 'PY']]), 'coreOnly': rng.random() < 0.3, 'dropAnon': rng.random() < 0.5}
        args.append(kw)

        def f(C, D):
            g = C.networkCoCitation(**kw) if k == 9 else C.networkCitation(**kw)
            return sorted(map(str, g.nodes())), sorted(str(sorted((str(a), str(b)))) + str(d.get('weight')) for a, b, d in g.edges(data=True))
        return 'networkCoCitation' if k == 9 else 'networkCitation', f, args
    if k == 11:
        kw = {'weighted': rng.random() < 0.5, 'addCR': False}
        return 'networkBibCoupling', lambda C, D: C.networkBibCoupling(**kw), args
    if k == 12:
        kt = rng.choice(['citation', 'journal', 'year', 'author'])
        pf = rng.random() < 0.5
        return 'localCiteStats', lambda C, D: C.localCiteStats(pandasFriendly=pf, keyType=kt), args
    if k == 13:
        return 'localCitesOf', lambda C, D: [C.localCitesOf(R.get('selfCitation')) for R in sorted(C, key=lambda R: R.id)[:1] if R.get('selfCitation') is not None], args
    if k == 14:
        key, field = rng.choice([('Smith', 'author'), ('NATURE', 'journal'), ('', 'all'), ('1999', 'year')])
        return 'citeFilter', lambda C, D: C.citeFilter(key, field, reverse=k % 2 == 0), args
    if k == 15:
        a = rng.randint(1950, 2010)
        return 'yearSplit', lambda C, D: C.yearSplit(a, a + rng.choice([0, 5, 40]) if False else a + 20), args
    if k == 16:
        tg = rng.choice([None, ['title', 'year', 'AU'], ['AU']])
        first = rng.choice([None, ['year'], ['AU', 'id']])
        args += [tg, first]

        def f(C, D):
            C.writeCSV(out('out.csv'), onlyTheseTags=tg, firstTags=first, longNames=k % 2 == 0)
            return written(out('out.csv'))
        return 'writeCSV', f, args
    if k == 17:
        def f(C, D):
            C.writeBib(out('out.bib'), reducedOutput=True)
            return written(out('out.bib'))
        return 'writeBib', f, args
    if k == 18:
        return 'findProbableCopyright', lambda C, D: bag(C.findProbableCopyright()), args
    if k == 19:
        dl = rng.choice([None, ['the', 'of']])
        args.append(dl)
        return 'forBurst', lambda C, D: C.forBurst('title', dropList=dl), args
    if k == 20:
        ex = rng.choice([None, ['AU', 'year'], ['LA']])
        dl = rng.choice([None, ['the', 'of']])
        args += [ex, dl]
        toFile = rng.random() < 0.5

        def f(C, D):
            r = C.forNLP(out('out.csv') if toFile else None, extraColumns=ex, dropList=dl, removeCopyright=True)
            return r, written(out('out.csv')) if toFile else None
        return 'forNLP', f, args
    if k == 21:
        tg = rng.choice([None, ['title', 'year', 'AU'], ['AU']])
        args.append(tg)
        return 'makeDict', lambda C, D: C.makeDict(onlyTheseTags=tg, raw=k % 2 == 0), args
    if k == 22:
        dy = rng.choice([None, [1999], 1999])
        args.append(dy)
        return 'rpys', lambda C, D: C.rpys(minYear=1980, maxYear=2010, dropYears=dy), args
    if k == 23:
        return 'genderStats', lambda C, D: C.genderStats(), args
    if k == 24:
        fv = rng.choice([(None, None), ('journal', ['NATURE']), ('author', None)])
        args.append(fv[1])
        return 'getCitations', lambda C, D: C.getCitations(*fv), args
    if k == 25:
        op = rng.choice(['__or__', '__and__', '__sub__', '__xor__', '__add__'])
        return op, lambda C, D: getattr(C, op)(D), args
    if k == 26:
        op = rng.choice(['__eq__', '__ne__', '__lt__', '__gt__', 'isdisjoint'])
        return op, lambda C, D: getattr(C, op)(D), args
    if k == 27:
        return 'copy', lambda C, D: C.copy(), args
    if k == 28:
        return 'tags', lambda C, D: bag(C.tags()), args
    if k == 29:
        n = rng.randint(1, 3)
        return 'chunk', lambda C, D: (sorted(len(x) for x in C.chunk(n)), bag(R for x in C.chunk(n) for R in x)), args
    if k == 30:
        return 'badEntries', lambda C, D: (C.badEntries(), C.containsID('WOS:1'), C.getID('WOS:1'), repr(C), str(C), len(C)), args
    if k == 31:
        kw = {'sourceType': rng.choice(['AU', 'year', 'LA', 'J9'])}

        def f(C, D):
            import metaknowledge as mk
            return mk.diffusionCount(C, D, **kw)
        return 'diffusionCount', f, args
    if k == 32:
        kw = {'sourceType': rng.choice(['AU', 'LA']), 'targetType': rng.choice(['AU', 'LA'])}

        def f(C, D):
            import metaknowledge as mk
            g = mk.diffusionGraph(C, D, **kw)
            return sorted(map(str, g.nodes())), sorted((str(a), str(b), str(d)) for a, b, d in g.edges(data=True))
        return 'diffusionGraph', f, args
    if k == 33:
        def f(C, D):
            if all(type(R).__name__ == 'WOSRecord' for R in C) or all(type(R).__name__ == 'ScopusRecord' for R in C) and len(C):
                C.writeFile(out('out.isi'))
                return written(out('out.isi'))
        return 'writeFile', f, args
    return 'each record', lambda C, D: sorted(repr((R.id, canon(R.get('title')), canon(R.get('authorsFull')), canon(R.get('citations')), len(R), str(R))) for R in C), args


def grantQuery(rng, tags):
    """The same for collections of grants"""
    T = lambda: rng.choice(tags)
    k = rng.randint(0, 13)
    args = []
    if k in (0, 1):
        ts = rng.choice([None, T(), [T()], [T(), T()]])
        sep = rng.choice([';', ';', ','])
        kw = {'count': rng.random() < 0.5, 'weighted': rng.random() < 0.5}
        args += [ts, kw]
        name = 'networkCoInvestigator' + ('Institution' if k else '')
        return name, lambda C, D: getattr(C, name)(ts, sep, **kw), args
    if k in (2, 3):
        ts = rng.choice([None, [T()], [T(), T()]])
        args.append(ts)
        name = 'getInstitutions' if k == 2 else 'getInvestigators'
        return name, lambda C, D: bag((str(G.id), getattr(G, name)(ts)) for G in C), args
    if k == 4:
        op = rng.choice(['__or__', '__and__', '__sub__', '__xor__', '__eq__', 'isdisjoint'])
        return 'grants ' + op, lambda C, D: getattr(C, op)(D), args
    if k == 5:
        return 'grants copy', lambda C, D: (C.copy(), bag(C.tags()), len(C), repr(C)), args
    if k == 6:
        t, c = T(), rng.random() < 0.5
        return 'grants glimpse', lambda C, D: [ln for ln in C.glimpse(t, compact=c).split('\n') if 'glimpse made at' not in ln], args
    if k == 7:
        t = T()
        return 'grants rankedSeries', lambda C, D: bag(C.rankedSeries(t, pandasMode=False)), args
    if k == 8:
        t = T()
        return 'grants networkOneMode', lambda C, D: C.networkOneMode(t), args
    if k == 9:
        a, b = T(), T()
        return 'grants networkTwoMode', lambda C, D: C.networkTwoMode(a, b), args
    if k == 10:
        ts = [T(), T()]
        args.append(ts)
        return 'grants networkMultiLevel', lambda C, D: C.networkMultiLevel(*ts), args
    if k == 11:
        a, bs = T(), [T()]
        return 'grants cooccurrenceCounts', lambda C, D: C.cooccurrenceCounts(a, *bs), args
    if k == 12:
        return 'each grant', lambda C, D: bag((str(G.id), str(G), len(G), G.bad, sorted(map(str, G.keys())), [repr(G.get(t)) for t in tags], repr(G)) for G in C), args
    return 'grant equality', lambda C, D: bag((str(G.id), G == H) for G in C for H in D), args


def graphQuery(rng):
    """(name, function of (graph, second graph), mutable arguments)"""
    import metaknowledge as mk
    k = rng.randint(0, 9)
    args = []
    if k == 0:
        return 'writeEdgeList', lambda g, h: (mk.writeEdgeList(g, out('e.csv')), written(out('e.csv'))), args
    if k == 1:
        return 'writeNodeAttributeFile', lambda g, h: (mk.writeNodeAttributeFile(g, out('n.csv')), written(out('n.csv'))), args
    if k == 2:
        def f(g, h):
            mk.writeGraph(g, out('x'))
            names = sorted(n for n in os.listdir('.') if n.startswith(out('x_')))
            r = mk.readGraph([n for n in names if 'edge' in n][0], [n for n in names if 'node' in n][0], directed=g.is_directed())
            return [n[len(out('')):] for n in names], written(*names), sorted(map(str, r.nodes()))
        return 'writeGraph', f, args
    if k == 3:
        st = rng.choice([['nodes', 'edges'], ('nodes', 'loops'), ['isolates', 'density']])
        args.append(st)
        return 'graphStats', lambda g, h: mk.graphStats(g, stats=st, makeString=rng is None), args
    if k == 4:
        return 'getNodeDegrees', lambda g, h: mk.graphHelpers.getNodeDegrees(g), args
    if k == 5:
        return 'getDegreeDistribution', lambda g, h: mk.graphHelpers.getDegreeDistribution(g), args
    if k == 6:
        # only the target changes
        def f(g, h):
            t = copy.deepcopy(h)
            mk.mergeGraphs(t, g)
            return t
        return 'mergeGraphs', f, args
    w = rng.randint(0, 3)
    if k == 7:
        return 'dropEdges', lambda g, h: onCopy(mk.dropEdges, g, minWeight=w), args
    if k == 8:
        return 'dropNodesByDegree', lambda g, h: onCopy(mk.dropNodesByDegree, g, minDegree=w), args
    return 'dropNodesByCount', lambda g, h: onCopy(mk.dropNodesByCount, g, minCount=w), args


def onCopy(fn, g, **kw):
    c = copy.deepcopy(g)
    r = fn(c, **kw)
    return c if r is None else r
