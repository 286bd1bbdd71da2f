"""What cannot be done is refused as documented and leaves everything as it was."""
import copy
import os
import warnings
import networkx as nx
from mkmon import gen, grants as gr, graphs, queries as q, rc

ID = 'P43'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 10000, 150000
RULE = ('Random collections of records and grants, records, grants, graphs and files, of which histories of 3-12 of 55 kinds of requests are made that cannot be granted: things of the wrong type, unknown names, absent members and tags, '
        'damaged and missing files, existing files that may not be overwritten, graphs that do not fit. Every request must raise the documented exception; afterwards collections, records, grants, graphs, arguments, '
        'files and the working directory are compared with what they were, and a request that can be granted with the answer of fresh equal objects. Non-trivial: at least three requests.')
ASSUMPTIONS = ['A request that is found wrong only while its file is being written may leave that file unfinished; requests that are wrong by their arguments may not touch any file.']
REQUIRED = ['refused', 'answered_after']
REQS = []


def req(f):
    REQS.append(f)
    REQUIRED.append('r_' + f.__name__)
    return f


def contour():
    import metaknowledge.contour.plotting as p
    p.plt.close('all')
    return p


class Skip(Exception):
    pass


def mkx(name):
    import metaknowledge.mkExceptions as x
    return getattr(x, name)


class Env:
    """Everything that requests are made of"""

    def __init__(self, rng, ctx):
        self.rng, self.ctx = rng, ctx
        recs, _, self.kind = rc.collection(rng, ctx)
        self.recs = [(r.kind, r.text()) for r in recs]
        self.bad = rng.random() < 0.2
        self.grants = []
        for i in range(rng.randint(1, 2)):
            name, data, gs = gr.anyFile(rng, i)
            self.grants.append(ctx.write(ctx.path(name), data))
        g = graphs.graph(rng)
        self.g0 = g
        self.t0 = self.twoMode()
        self.files = {}
        for n, data in (('unknown.txt', b'Nothing that anyone knows\nat all\n'), ('old.csv', b'what it was\n'), ('net_edgeList.csv', b'edges\n'), ('deg_nodeAttributes.csv', b'nodes\n'), ('good.txt', None)):
            if n == 'good.txt':
                data = gen.wosFile([r for r in recs if r.kind == 'WOS']).encode('utf-8')
            ctx.write(ctx.path(n), data)
        d = ctx.newdir('dir')
        ctx.write(os.path.join(d, 'a.txt'), gen.wosFile([r for r in recs if r.kind == 'WOS']))
        ctx.write(os.path.join(d, 'b.txt'), 'Not known\n')
        self.dir = d
        e = ctx.newdir('gdir')
        ctx.write(os.path.join(e, 'x.zip'), bytes(range(128, 256)))
        self.gdir = e
        self.make()

    def twoMode(self):
        rng = self.rng
        t = rng.choice([nx.Graph, nx.DiGraph, nx.MultiGraph, nx.MultiDiGraph])()
        for i in range(rng.randint(1, 4)):
            t.add_node('a{}'.format(i), type='A')
        for i in range(rng.randint(1, 4)):
            t.add_node('b{}'.format(i), type='B')
        a, b = [n for n in t if n[0] == 'a'], [n for n in t if n[0] == 'b']
        for _ in range(rng.randint(1, 8)):
            t.add_edge(rng.choice(a), rng.choice(b), weight=rng.randint(1, 5))
        return t

    def fresh(self):
        import metaknowledge as mk
        out = [{'WOS': mk.WOSRecord, 'Medline': mk.MedlineRecord, 'Scopus': mk.ScopusRecord}[k](t) for k, t in self.recs]
        C = mk.RecordCollection(out, name='one')
        if self.bad:
            C.add(mk.WOSRecord('PT J\nAU Nobody, N\nPY 2001\nUT WOS:BAD\n'))
            C.bad = True
            C.errors = {'some file': ValueError('x')}
        D = mk.RecordCollection(out[:1], name='two')
        GC = mk.GrantCollection(name='grants')
        for p in self.grants:
            GC |= mk.GrantCollection(p)
        return C, D, GC

    def make(self):
        self.C, self.D, self.GC = self.fresh()
        self.g, self.t = self.g0.copy(), self.t0.copy()

    def any(self):
        """Something that is no string, record, citation, grant, graph or collection"""
        return self.rng.choice([5, None, 2.5, ('a', 'b'), b'AU', {'a': 1}, ['AU'], frozenset('x')])

    def number(self):
        return self.rng.choice([5, 2.5, 0, True])

    def word(self):
        return self.rng.choice(['zz', 'no such', '', 'Äh', 'CITATION', 'full '])

    def record(self):
        good = [R for R in self.C if not R.bad]
        if not good:
            raise Skip
        return self.rng.choice(sorted(good, key=lambda R: str(R.id)))

    def grant(self):
        good = sorted(self.GC, key=lambda G: repr(sorted(G.items(), key=repr)))
        if not good:
            raise Skip
        return self.rng.choice(good)

    def snap(self):
        tree = {}
        for root, ds, fs in os.walk(self.ctx.tmp):
            for f in fs:
                p = os.path.join(root, f)
                with open(p, 'rb') as h:
                    tree[os.path.relpath(p, self.ctx.tmp)] = h.read()
            for x in ds:
                tree[os.path.relpath(os.path.join(root, x), self.ctx.tmp) + '/'] = None
        return {'C': q.state(self.C), 'D': q.state(self.D), 'grants': q.state(self.GC), 'graph': graphState(self.g), 'two-mode': graphState(self.t), 'types': sorted(self.C._collectedTypes),
                'files': tree, 'cwd': os.getcwd()}


def graphState(g):
    keys = {'keys': True} if g.is_multigraph() else {}
    return (type(g).__name__, [(n, copy.deepcopy(d)) for n, d in g.nodes(data=True)], [tuple(e[:-1]) + (copy.deepcopy(e[-1]),) for e in g.edges(data=True, **keys)], dict(g.graph))


# every request: the exceptions it must raise, what is called, its mutable arguments, the files it may leave unfinished

# members

@req
def addRecord(E):
    import metaknowledge as mk
    x = E.rng.choice([E.any(), 'WOS:1', {'UT': ['WOS:1']}, mk.Citation('SMITH J, 1990, NATURE'), E.D])
    return mkx('CollectionTypeError'), lambda: E.C.add(x)


@req
def addGrant(E):
    x = E.rng.choice([E.any(), 'grant', E.record(), E.C])
    return mkx('CollectionTypeError'), lambda: E.GC.add(x)


@req
def removeAbsent(E):
    import metaknowledge as mk
    R = mk.WOSRecord('PT J\nUT WOS:ABSENT\nER\n')
    x = E.rng.choice([R, R, 'WOS:1', 5, None])
    return KeyError, lambda: E.rng.choice([E.C, E.GC]).remove(x)


@req
def removeAbsentID(E):
    x = E.rng.choice(['WOS:ABSENT', '', 5, None, 'wos:'])
    return KeyError, lambda: E.rng.choice([E.C, E.GC]).removeID(x)


@req
def popEmpty(E):
    import metaknowledge as mk
    X = E.rng.choice([mk.RecordCollection, mk.GrantCollection])()
    X.bad = True

    def f():
        try:
            X.pop()
        finally:
            E.ctx.eq((len(X), X.bad, X.name), (0, True, 'Empty'), 'changed', 'popping an empty collection')
    return KeyError, f


@req
def listOfRecords(E):
    import metaknowledge as mk
    l = [R for R in E.C if not R.bad]
    l.insert(E.rng.randint(0, len(l)), E.rng.choice([E.any(), 'x', E.D]))
    return mkx('RCTypeError'), lambda: mk.RecordCollection(E.rng.choice([lambda: l, lambda: tuple(l), lambda: iter(l)])()), [l]


@req
def listOfGrants(E):
    import metaknowledge as mk
    l = list(E.GC)
    l.insert(E.rng.randint(0, len(l)), E.rng.choice([E.any(), 'x', E.C]))
    return mkx('GrantCollectionException'), lambda: mk.GrantCollection(l), [l]


@req
def ofNumber(E):
    import metaknowledge as mk
    x = E.number()
    if E.rng.random() < 0.5:
        return mkx('RCTypeError'), lambda: mk.RecordCollection(x)
    return mkx('GrantCollectionException'), lambda: mk.GrantCollection(x)


@req
def operators(E):
    import metaknowledge as mk
    import operator as o
    op = E.rng.choice([o.or_, o.and_, o.sub, o.xor, o.ior, o.iand, o.isub, o.ixor])
    x = E.rng.choice([5, None, 2.5, mk.WOSRecord])
    return TypeError, lambda: op(E.rng.choice([E.C, E.GC]), x)


# files

@req
def missingFile(E):
    import metaknowledge as mk
    p = E.rng.choice(['missing.txt', 'dir9/', E.ctx.path('missing'), 'a string', ' ', '/nonexistent/x.isi'])
    kw = {'cached': E.rng.random() < 0.5}
    if E.rng.random() < 0.5:
        return mkx('RCTypeError'), lambda: mk.RecordCollection(p, **kw)
    return mkx('GrantCollectionException'), lambda: mk.GrantCollection(p, **kw)


@req
def otherExtension(E):
    import metaknowledge as mk
    x = E.rng.choice(['.isi', '.TXT', 'good', 'txt '])
    if E.rng.random() < 0.5:
        return mkx('RCTypeError'), lambda: mk.RecordCollection('good.txt', extension=x)
    return mkx('GrantCollectionException'), lambda: mk.GrantCollection(E.grants[0], extension=x)


@req
def unknownFile(E):
    import metaknowledge as mk
    return mkx('BadInputFile'), lambda: mk.RecordCollection('unknown.txt')


@req
def unknownGrants(E):
    import metaknowledge as mk
    return mkx('BadInputFile'), lambda: mk.GrantCollection(os.path.join(E.gdir, 'x.zip'))


@req
def unknownInDirectory(E):
    import metaknowledge as mk
    c = E.rng.random() < 0.5
    if E.rng.random() < 0.5:
        return mkx('BadInputFile'), lambda: mk.RecordCollection(E.dir, extension=E.rng.choice(['.txt', 'txt', 'b.txt']), cached=c)
    return mkx('BadInputFile'), lambda: mk.GrantCollection(E.gdir, extension='.zip', cached=c)


# records

@req
def recordOf(E):
    import metaknowledge as mk
    x = E.rng.choice([5, None, 2.5, E.record()])
    if x is not None and not isinstance(x, (int, float)) and E.rng.random() < 0.5:
        x = 7
    if isinstance(x, mk.Record):
        x = object()
    T = E.rng.choice([mk.WOSRecord, mk.ProQuestRecord, mk.MedlineRecord, mk.ScopusRecord])
    return TypeError, lambda: T(x)


@req
def absentTag(E):
    R = E.record()
    k = E.rng.choice(['XX', 'no tag', '', 'Au'])
    return KeyError, lambda: R[k]


@req
def noTag(E):
    R = E.record()
    k = E.rng.choice([5, None, b'AU', 2.5, ('AU',)])
    return TypeError, lambda: R[k]


@req
def badWritten(E):
    import metaknowledge as mk
    T, t, x = E.rng.choice([(mk.WOSRecord, 'PT J\nAU A, B\nUT WOS:1\n', 'BadWOSRecord'), (mk.MedlineRecord, 'PMID- 1\nPMID- 2\n', 'BadPubmedRecord'), (mk.ScopusRecord, 'a,b,c\n', 'BadScopusRecord')])
    R = T(t)
    assert R.bad
    f = open('new.txt', 'w')

    def g():
        try:
            R.writeRecord(f)
        finally:
            f.close()
            E.ctx.eq(E.ctx.read('new.txt'), b'', 'written', 'a record that could not be read')
            os.remove('new.txt')
    return mkx(x), g, [], ['new.txt']


@req
def badConverted(E):
    import metaknowledge as mk
    T, t = E.rng.choice([(mk.WOSRecord, 'PT J\nAU A, B\nUT WOS:1\n'), (mk.MedlineRecord, 'PMID- 1\nPMID- 2\n'), (mk.ScopusRecord, 'a,b,c\n')])
    R = T(t)
    return mkx('BadRecord'), E.rng.choice([lambda: R.bibString(), lambda: bytes(R)])


@req
def proquestWritten(E):
    import metaknowledge as mk
    from mkmon import gen
    r = gen.pro(E.rng, set())
    E.ctx.write(E.ctx.path('pq.txt'), gen.proFile([r]))
    RC = mk.RecordCollection('pq.txt')
    os.remove('pq.txt')
    return mkx('RecordsNotCompatible'), lambda: RC.writeFile('left.txt'), [], ['left.txt']


@req
def grantKey(E):
    G = E.grant()
    x = E.any()
    if x.__hash__ is None:
        raise Skip
    return KeyError, lambda: G.__setitem__(x, 'value')


@req
def grantAbsent(E):
    G = E.grant()
    k = E.rng.choice(['XX', 'no field', 5])
    return KeyError, E.rng.choice([lambda: G[k], lambda: G.__delitem__(k), lambda: G.pop(k)])


@req
def recordChanged(E):
    R = E.record()
    k = sorted(R.keys())[0]

    def assign():
        R[k] = ['x']

    def delete():
        del R[k]
    return TypeError, E.rng.choice([assign, delete])


@req
def placeChanged(E):
    R = E.rng.choice([E.record, E.grant])()
    n = E.rng.choice(['id', 'sourceFile', 'sourceLine'])
    return AttributeError, lambda: setattr(R, n, 'x')


# tags and networks

@req
def tagTwoMode(E):
    X = E.rng.choice([E.C, E.GC])
    x = E.any()
    a = [x, 'AU']
    E.rng.shuffle(a)
    return mkx('TagError'), lambda: X.networkTwoMode(*a), [a]


@req
def tagMultiMode(E):
    X = E.rng.choice([E.C, E.GC])
    a = ['AU', 'TI', E.rng.choice([5, None, 2.5, b'AU'])]
    E.rng.shuffle(a)
    one = E.rng.random() < 0.5
    return mkx('TagError'), lambda: X.networkMultiMode(a) if one else X.networkMultiMode(*a), [a]


@req
def tagCounts(E):
    X = E.rng.choice([E.C, E.GC])
    a = ['AU', 'TI', E.any()]
    E.rng.shuffle(a)
    return mkx('TagError'), lambda: X.cooccurrenceCounts(*a), [a]


@req
def stemmer(E):
    X = E.rng.choice([E.C, E.GC])
    s = E.rng.choice([5, 'stem', ['x'], {'a': 1}])
    f = E.rng.choice([lambda: X.networkOneMode('AU', stemmer=s), lambda: X.networkMultiMode('AU', 'TI', stemmer=s), lambda: X.networkMultiLevel('AU', 'TI', stemmer=s),
                      lambda: X.networkTwoMode('AU', 'TI', stemmerTag1=s), lambda: X.networkTwoMode('AU', 'TI', stemmerTag2=s), lambda: X.networkTwoMode('AU', 'TI', stemmerTag1=str, stemmerTag2=s)])
    return mkx('TagError'), f, [s]


@req
def nodeType(E):
    x = E.rng.choice([E.word(), 5, None, ('full',)])
    f = E.rng.choice(['networkCoCitation', 'networkCitation'])
    return mkx('RCValueError'), lambda: getattr(E.C, f)(nodeType=x)


@req
def keyType(E):
    x = E.word()
    return TypeError, lambda: E.C.localCiteStats(keyType=x)


@req
def citesOf(E):
    x = E.rng.choice([5, None, 2.5, ['x'], E.D])
    return ValueError, lambda: E.C.localCitesOf(x)


@req
def countsAndRanks(E):
    X = E.rng.choice([E.C, E.GC])
    return mkx('mkException'), lambda: X.rankedSeries('AU', giveCounts=True, giveRanks=True, outputFile='new.csv')


@req
def longNames(E):
    tags = E.rng.choice([['AU', 'XX'], ['no tag'], ['XX', 'title']])
    f = E.rng.choice([lambda: E.C.writeCSV(E.rng.choice(['new.csv', 'old.csv']), onlyTheseTags=tags, longNames=True), lambda: E.C.makeDict(onlyTheseTags=tags, longNames=True)])
    return KeyError, f, [tags]


@req
def yearSplit(E):
    if not any(R.get('year') is None for R in E.C if not R.bad):
        raise Skip
    if E.bad:
        raise Skip
    return TypeError, lambda: E.C.yearSplit(1990, 2000, dropMissingYears=False)


# diffusion

@req
def diffusionTypes(E):
    import metaknowledge as mk
    kw = E.rng.choice([{'sourceType': 'no tag'}, {'targetType': 'no tag'}, {'labelEdgesBy': 'no tag'}, {'labelEdgesBy': 5}, {'sourceType': 5}, {'targetType': None}])
    return RuntimeError, lambda: mk.diffusionGraph(E.C, E.D, **kw)


@req
def diffusionCounts(E):
    import metaknowledge as mk
    k = E.rng.randint(0, 2)
    f = [lambda: mk.diffusionCount(E.C, E.D, sourceType=5), lambda: mk.diffusionCount(E.C, E.D, extraValue=5),
         lambda: mk.diffusionCount(*E.rng.choice([(E.C, [1]), (E.GC, E.C), (list(E.C), E.D), (E.C, None)]))][k]
    return RuntimeError, f


@req
def diffusionAdded(E):
    import metaknowledge as mk
    a = E.rng.choice([(E.C, [1]), (E.GC, E.C), (list(E.C), E.D), (E.C, None)])
    return RuntimeError, lambda: mk.diffusionAddCountsFromSource(E.g, *a, nodeType='title')


# graphs

@req
def stat(E):
    import metaknowledge as mk
    s = ['nodes', 'edges', E.word()]
    E.rng.shuffle(s)
    return RuntimeError, lambda: mk.graphStats(E.g, stats=s), [s]


@req
def overwrite(E):
    import metaknowledge as mk
    n = E.rng.choice(['net', 'deg', './net', E.ctx.path('deg')])
    return OSError, lambda: mk.writeGraph(E.g, n, overwrite=False)


@req
def sameAttributesEdges(E):
    import metaknowledge as mk
    E.t.add_edge('a0', 'b0', odd=1, **({'key': 'one'} if E.t.is_multigraph() else {}))
    E.t.add_edge('a0', 'b9')
    E.t.add_edge('a0', 'b8', other=1)
    E.changedGraph = True
    f = E.rng.choice(['new.csv', 'old.csv'])
    return ValueError, lambda: mk.writeEdgeList(E.t, f, allSameAttribute=True), [], [f]


@req
def sameAttributesNodes(E):
    import metaknowledge as mk
    E.t.add_node('c', odd=1)
    E.t.add_node('d')
    E.t.add_node('e', other=1)
    E.changedGraph = True
    f = E.rng.choice(['new.csv', 'old.csv'])
    return ValueError, lambda: mk.writeNodeAttributeFile(E.t, f, allSameAttribute=True), [], [f]


@req
def missingGraph(E):
    import metaknowledge as mk
    return OSError, E.rng.choice([lambda: mk.readGraph('missing.csv'), lambda: mk.readGraph('old.csv', 'missing.csv'), lambda: mk.readGraph('missing_edgeList.csv', 'old.csv', idKey='what it was')])


@req
def otherColumns(E):
    import metaknowledge as mk
    mk.writeGraph(E.t, 'x')
    k = E.rng.randint(0, 2)
    f = [lambda: mk.readGraph('x_edgeList.csv', eSource='From'), lambda: mk.readGraph('x_edgeList.csv', eDest='To'), lambda: mk.readGraph('x_edgeList.csv', 'x_nodeAttributes.csv', idKey='id')][k]
    return KeyError, f


@req
def tnetModes(E):
    import metaknowledge as mk
    k = E.rng.randint(0, 3)
    E.changedGraph = True
    if k == 0:
        E.t.add_node('c', type='C')
    elif k == 1:
        E.t.add_node('c')
    elif k == 2:
        E.t.remove_nodes_from([n for n in E.t if n[0] == 'b'])
    name = 'kind' if k == 3 else 'type'
    w = E.rng.random() < 0.5
    return mkx('RCValueError'), lambda: mk.writeTnetFile(E.t, E.rng.choice(['new.tnet', 'old.csv']), name, weighted=w)


@req
def tnetOneMode(E):
    import metaknowledge as mk
    E.changedGraph = True
    a = E.rng.choice([('a0', 'a0'), ('b0', 'b0'), ('a0', 'a9'), ('b9', 'b0')])
    for n in a:
        E.t.add_node(n, type=n[0].upper())
    E.t.add_edge(*a, weight=1)
    return mkx('RCValueError'), lambda: mk.writeTnetFile(E.t, E.rng.choice(['new.tnet', 'old.csv']), 'type')


@req
def edgeType(E):
    import metaknowledge as mk
    if not E.g.number_of_edges():
        raise Skip
    x = E.word()
    return ValueError, E.rng.choice([lambda: mk.graphHelpers.getNodeDegrees(E.g, edgeType=x, weightString=None), lambda: mk.graphHelpers.getDegreeDistribution(E.g, directionalType=x, weightParameter=None)])


@req
def strictWeights(E):
    import metaknowledge as mk
    if not E.g.number_of_edges():
        raise Skip
    return KeyError, E.rng.choice([lambda: mk.graphHelpers.getNodeDegrees(E.g, weightString='absent', strictMode=True), lambda: mk.graphHelpers.getDegreeDistribution(E.g, weightParameter='absent', strictWeightNames=True)])


@req
def weightType(E):
    import metaknowledge as mk
    return ValueError, lambda: mk.graphHelpers.getDegreeDistribution(E.g, weightType=E.rng.choice([float, str, 5]))


@req
def dropWithout(E):
    import metaknowledge as mk
    k = E.rng.randint(0, 2)
    g = E.g
    if k == 0:
        loops = E.rng.random() < 0.5
        if loops:
            E.changedGraph = True
            n = next(iter(g), None)
            if n is not None:
                g.add_edge(n, n)
        if not [e for e in g.edges() if not loops or e[0] != e[1]]:
            raise Skip
        # an attribute that some of the edges have
        some = E.rng.choice(['absent', 'part'])
        if some == 'part':
            E.changedGraph = True
            for i, e in enumerate(list(g.edges(data=True))[:-1]):
                e[2]['part'] = i
            if loops or 'part' in list(g.edges(data=True))[-1][2]:
                some = 'absent'
        kw = E.rng.choice([{'minWeight': 2}, {'maxWeight': 2}, {'minWeight': 1, 'maxWeight': 4}])
        return KeyError, lambda: mk.dropEdges(g, parameterName=some, dropSelfLoops=loops, **kw)
    if k == 1:
        if not g.number_of_edges():
            raise Skip
        return KeyError, lambda: mk.dropNodesByDegree(g, minDegree=E.rng.choice([0, 2]), parameterName='absent', includeUnweighted=False)
    if not len(g):
        raise Skip
    if E.rng.random() < 0.5:
        E.changedGraph = True
        for i, n in enumerate(list(g)[:-1]):
            g.nodes[n]['absent'] = i
    return KeyError, lambda: mk.dropNodesByCount(g, minCount=E.rng.choice([0, 2, 100]), parameterName='absent')


# names, journals and genders

@req
def journals(E):
    import metaknowledge as mk
    from metaknowledge.journalAbbreviations import backend as ja
    f = E.rng.choice(['addToDB', 'excludeFromDB'])
    x = E.rng.choice([5, 2.5, {'A': 5}, {5: 'A'}, {'A': 'B', 'C': None}]) if f == 'addToDB' else E.rng.choice([5, 2.5, ['A', 5], [None]])
    fn = getattr(ja, f)
    return TypeError, lambda: fn(x, dbname='new'), [x]


@req
def noOwnJournals(E):
    from metaknowledge.journalAbbreviations import backend as ja
    return mkx('JournalDataBaseError'), lambda: ja.getj9dict(manualDB='missing', returnDict='manual')


@req
def notDrawn(E):
    import matplotlib
    matplotlib.use('Agg')
    x = E.rng.choice([5, None, 'graph', E.C, [1]])
    if E.rng.random() < 0.5:
        return TypeError, lambda: contour().graphDensityContourPlot(x)
    return TypeError, lambda: contour().graphDensityContourPlot(E.t, layout=E.rng.choice([5, 'layout', {'a0': (0, 0)}]))


@req
def notAllTyped(E):
    import matplotlib
    matplotlib.use('Agg')
    for n in list(E.t)[:-1]:
        E.t.nodes[n]['type'] = 'A'
    E.changedGraph = True
    n = list(E.t)[-1]
    E.t.nodes[n].pop('type')
    if len(E.t) < 2:
        raise Skip
    return RuntimeError, lambda: contour().quickVisual(E.t)


@req
def noSuchTag(E):
    from metaknowledge.WOS.tagProcessing import funcDicts as fd
    k = E.rng.randint(0, 2)
    x = E.rng.choice(['XX', 'no tag', ''])
    return KeyError, [lambda: fd.tagToFull(x), lambda: fd.normalizeToTag(E.rng.choice([x, 5, None])), lambda: fd.normalizeToName(x)][k]


@req
def gender(E):
    import metaknowledge as mk
    x = E.rng.choice(['Smith', 'Smith John', '', 'Smith,John'])
    return mkx('GenderException'), lambda: mk.genders.nameStringGender(x)


def case(rng, ctx):
    import metaknowledge as mk
    warnings.simplefilter('ignore')
    E = Env(rng, ctx)
    tags = rc.keysFor(rng, E.kind)
    done = []
    for _ in range(rng.randint(3, 12)):
        f = rng.choice(REQS)
        E.changedGraph = False
        try:
            r = f(E)
        except Skip:
            continue
        exc, fn, args, left = (tuple(r) + ([], []))[:4]
        was = copy.deepcopy(args) if f.__name__ not in ('listOfRecords', 'listOfGrants') else [list(a) for a in args]
        before = E.snap()
        what = '{} ({})'.format(f.__name__, ' '.join(done[-3:]))
        try:
            got = fn()
        except exc:
            ctx.counts['oracle_checks'] += 1
        except Exception as e:
            ctx.fail('other-exception', '{}: {!r} instead of {}'.format(what, e, exc))
            return
        else:
            ctx.fail('not-refused', '{}: gave {!r}'.format(what, got))
            return
        after = E.snap()
        for n in left:
            after['files'].pop(n, None)
            before['files'].pop(n, None)
        for k in before:
            if not ctx.eq(after[k], before[k], 'changed-' + k, what):
                return
        ctx.check(all(same(a, b) for a, b in zip(args, was)), 'arguments-changed', what)
        for n in left:
            ctx.write(ctx.path(n), b'what it was\n') if n == 'old.csv' else os.path.exists(n) and os.remove(n)
        for n in ('x_edgeList.csv', 'x_nodeAttributes.csv'):
            os.path.exists(n) and os.remove(n)
        if E.changedGraph:
            E.g, E.t = E.g0.copy(), E.t0.copy()
        done.append(f.__name__)
        ctx.count('r_' + f.__name__)
        ctx.count('refused')
        # what can be granted is answered as if nothing had been asked
        if rng.random() < 0.25:
            name, ask, _ = q.collectionQuery(rng, tags)
            C, D, _ = E.fresh()
            a, b = answer(ask, E.C, E.D), answer(ask, C, D)
            if not ctx.eq(a, b, 'answer-differs', '{} after {}'.format(name, done)):
                return
            ctx.count('answered_after')
            for n in set(os.listdir('.')) & {'out.csv', 'out.bib', 'out.txt'}:
                os.remove(n)
    if len(done) > 2:
        ctx.sig(done, [t for _, t in E.recs])
        ctx.sample({'records': len(E.recs), 'grants': len(E.GC), 'refused': done})


def answer(fn, *a):
    try:
        return ('answer', repr(q.canon(fn(*a))))
    except Exception as e:
        return ('raised', type(e).__name__, str(e)[:200])


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))
    return a == b
