"""Asking changes nothing: answers depend on the collection and not on what was asked before."""
import copy
import os
import warnings
from mkmon import citenet as cn, gen, grants as gr, graphs, queries as q, rc

ID = 'P27'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 20000, 200000
RULE = ('Random pairs of collections of 0-9 records of three formats, and graphs, and collections of grants, on which histories of 2-10 of 60 kinds of questions (networks, series, tables, filters, statistics, files, set operations, graph files and '
        'statistics) are run; every answer is compared with the one a fresh equal collection gives when it is asked only that, and the collections, records, graphs, arguments and files with what they were. '
        'Non-trivial: at least four questions to at least two records.')
ASSUMPTIONS = ['Questions that document changing something (adding, dropping and merging in place) are not among those asked.', 'Files are the ones named in the question, and are removed after each answer.']
NAMES = ['glimpse', 'rankedSeries', 'timeSeries', 'cooccurrenceCounts', 'networkOneMode', 'networkTwoMode', 'networkMultiMode', 'networkMultiLevel', 'networkCoAuthor', 'networkCoCitation', 'networkCitation', 'networkBibCoupling',
         'localCiteStats', 'localCitesOf', 'citeFilter', 'yearSplit', 'writeCSV', 'writeBib', 'findProbableCopyright', 'forBurst', 'forNLP', 'makeDict', 'rpys', 'genderStats', 'getCitations', 'copy', 'tags', 'chunk', 'badEntries',
         'diffusionCount', 'diffusionGraph', 'writeFile', 'each record', '__or__', '__and__', '__sub__', '__xor__', '__add__', '__eq__',
         'networkCoInvestigator', 'networkCoInvestigatorInstitution', 'getInvestigators', 'getInstitutions', 'each grant', 'grant equality', 'grants networkOneMode', 'grants __or__', 'grants __eq__',
         'writeEdgeList', 'writeNodeAttributeFile', 'writeGraph', 'graphStats', 'getNodeDegrees', 'getDegreeDistribution', 'mergeGraphs']
REQUIRED = ['q_' + n for n in NAMES] + ['repeated', 'with_malformed', 'empty', 'mixed']


def answer(fn, *a):
    try:
        return ('answer', repr(q.canon(fn(*a))))
    except Exception as e:
        return ('raised', type(e).__name__, str(e)[:200])


def tidy(files, got):
    """An answer that was refused may leave its own unfinished file"""
    if got[0] == 'raised':
        for f in set(os.listdir('.')) - set(files):
            os.remove(f)


def build(mk, texts, bads, name):
    out = [{'WOS': mk.WOSRecord, 'Medline': mk.MedlineRecord, 'Scopus': mk.ScopusRecord}[k](t) for k, t in texts]
    RC = mk.RecordCollection(out, name=name)
    for t in bads:
        RC.add(mk.WOSRecord(t))
    if bads:
        RC.bad = True
        RC.errors = {'some file': ValueError('x')}
    return RC


def records(rng, ctx):
    if rng.random() < 0.5:
        recs = cn.records(rng, ctx)[0]
        return [('WOS', r.text()) for r in recs], 'wos'
    recs, _, kind = rc.collection(rng, ctx)
    ctx.count('mixed', int(kind == 'mixed'))
    return [(r.kind, r.text()) for r in recs], kind


def collections_(rng, ctx):
    import metaknowledge as mk
    texts, kind = records(rng, ctx)
    texts2 = rng.sample(texts, rng.randint(0, len(texts))) if rng.random() < 0.5 else records(rng, ctx)[0]
    bads = ['PT J\nAU Nobody, N\nPY 2001\nUT WOS:BAD\n'] if rng.random() < 0.2 else []
    ctx.count('with_malformed', len(bads))
    ctx.count('empty', int(not texts))
    make = lambda: (build(mk, texts, bads, 'one'), build(mk, texts2, [], 'two'))
    tags = rc.keysFor(rng, kind)
    hist = []
    n = rng.randint(2, 10)
    for _ in range(n):
        hist.append(rng.choice(hist) if hist and rng.random() < 0.15 else q.collectionQuery(rng, tags))
    if len({id(h) for h in hist}) < len(hist):
        ctx.count('repeated')
    C, D = make()
    before = (q.state(C), q.state(D))
    seen = []
    for name, fn, args in hist:
        seen.append(name)
        ctx.count('q_' + name)
        was = copy.deepcopy(args)
        files = sorted(os.listdir('.'))
        got = answer(fn, C, D)
        tidy(files, got)
        ctx.eq(args, was, 'arguments-changed', 'by {}'.format(name))
        ctx.eq(sorted(os.listdir('.')), files, 'files-left', 'by {}'.format(name))
        if not ctx.eq((q.state(C), q.state(D)), before, 'collection-changed', 'by {} after {}'.format(name, seen)):
            return
        fresh = answer(fn, *make())
        tidy(files, fresh)
        if not ctx.eq(got, fresh, 'answer-differs', '{} after {}'.format(name, seen)):
            return
        if got[0] == 'raised':
            ctx.count('raised')
    if n > 3 and len(texts) > 1:
        ctx.sig(seen, [t for _, t in texts])
        ctx.sample({'records': len(texts), 'asked': seen})


def grantPair(rng, ctx):
    import metaknowledge as mk
    paths = []
    for i in range(rng.randint(1, 3)):
        name, data, gs = gr.anyFile(rng, i)
        paths.append(ctx.write(ctx.path(name), data))

    def make():
        out = []
        for p in (paths, paths[:1]):
            C = mk.GrantCollection()
            for x in p:
                C |= mk.GrantCollection(x)
            out.append(C)
        return out
    return make, sorted({k for G in make()[0] for k in G.keys() if k is not None}) + ['absent'], paths


def grants_(rng, ctx):
    make, tags, paths = grantPair(rng, ctx)
    C, D = make()
    before = (q.state(C), q.state(D))
    seen = []
    for _ in range(rng.randint(2, 7)):
        name, fn, args = q.grantQuery(rng, tags)
        seen.append(name)
        ctx.count('q_' + name)
        was = copy.deepcopy(args)
        files = sorted(os.listdir('.'))
        got = answer(fn, C, D)
        ctx.eq(args, was, 'arguments-changed', 'by {}'.format(name))
        ctx.eq(sorted(os.listdir('.')), files, 'files-left', 'by {}'.format(name))
        if not ctx.eq((q.state(C), q.state(D)), before, 'grants-changed', 'by {} after {}'.format(name, seen)):
            return
        if not ctx.eq(got, answer(fn, *make()), 'grant-answer-differs', '{} after {}'.format(name, seen)):
            return
        if got[0] == 'raised':
            ctx.count('raised')
    for p in paths:
        os.remove(p)
    if len(seen) > 3 and len(C) > 1:
        ctx.sig('grants', seen, tags)


def graphs_(rng, ctx):
    g = graphs.graph(rng, hard=False, kind=None)
    g = g[0] if isinstance(g, tuple) else g
    h = graphs.graph(rng, hard=False)
    h = h[0] if isinstance(h, tuple) else h
    if type(h) is not type(g):
        h = type(g)(h)
    before = (q.canon(g), q.canon(h))
    g0, h0 = copy.deepcopy(g), copy.deepcopy(h)
    hist = [q.graphQuery(rng) for _ in range(rng.randint(2, 5))]
    seen = []
    for name, fn, args in hist:
        seen.append(name)
        ctx.count('q_' + name)
        was = copy.deepcopy(args)
        files = sorted(os.listdir('.'))
        got = answer(fn, g, h)
        tidy(files, got)
        ctx.eq(sorted(os.listdir('.')), files, 'files-left', 'by {}'.format(name))
        ctx.eq(args, was, 'arguments-changed', 'by {}'.format(name))
        ctx.eq((q.canon(g), q.canon(h)), before, 'graph-changed', 'by {} after {}'.format(name, seen))
        ctx.eq(got, answer(fn, copy.deepcopy(g0), copy.deepcopy(h0)), 'graph-answer-differs', '{} after {}'.format(name, seen))
        for f in set(os.listdir('.')) - set(files):
            os.remove(f)


def case(rng, ctx):
    warnings.simplefilter('ignore')
    r = rng.random()
    (graphs_ if r < 0.2 else grants_ if r < 0.35 else collections_)(rng, ctx)
