"""A disk that fails part way: what is read or written is whole, or the failure is told."""
import copy
import gc
import os
import warnings
from mkmon import dirs, faults, gen, grants as gr, graphs, queries as q, rc

ID = 'P35'
LEVEL = 'fault_enumeration'
QUICK_N, THOROUGH_N = 5000, 80000
RULE = ('Random files and directories of records, grants and graphs are read, with and without the directory cache, and collections and graphs are written in nine ways, over a disk that hands out and takes a few bytes at a time and on '
        'which the k-th opening, reading, writing or closing fails, once or from then on; what comes back is compared with what a disk that works gives. Non-trivial: a fault was met at a point that is new for the action.')
ASSUMPTIONS = ['A failing disk raises OSError; a file that could not be written whole may be left unfinished when the failure is raised.']
ACTIONS = ['records_file', 'records_directory', 'grants_file', 'grants_directory', 'cached_directory', 'read_graph', 'writeFile', 'writeCSV', 'split_csv', 'writeBib', 'forNLP', 'forBurst', 'rankedSeries', 'timeSeries', 'rpys', 'writeGraph', 'writeTnet']
REQUIRED = ['a_' + a for a in ACTIONS] + ['fault_open', 'fault_create', 'fault_read', 'fault_write', 'fault_close', 'raised', 'unharmed', 'lasting', 'cache_survived']


def snap(C):
    import metaknowledge as mk
    if isinstance(C, mk.RecordCollection):
        return dirs.snapshot(C)
    return {'records': sorted(repr((type(G).__name__, str(G.id), sorted((k, repr(v)) for k, v in G.items()), bool(G.bad))) for G in C), 'n': len(C), 'name': C.name, 'bad': C.bad, 'errors': {k: str(v) for k, v in C.errors.items()}}


def listing(d):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def sortedFiles(d):
    return {k: sorted(v.split(b'\n')) for k, v in listing(d).items()}


def readers(rng, ctx, mk):
    """(name, action, directory of the input)"""
    d = ctx.newdir('in')
    what = rng.choice(['records_file', 'records_file', 'records_directory', 'grants_file', 'grants_directory', 'cached_directory', 'read_graph'])
    if what == 'read_graph':
        g = graphs.graph(rng, kind=rng.choice(['Graph', 'DiGraph']), attrs=rng.random() < 0.7)
        mk.writeGraph(g, os.path.join(d, 'g'))
        nodes = os.path.join(d, 'g_nodeAttributes.csv') if rng.random() < 0.7 else None
        directed = g.is_directed()
        return what, lambda: repr(q.canon(mk.readGraph(os.path.join(d, 'g_edgeList.csv'), nodes, directed=directed))), d
    m = dirs.Maker(rng)
    isGrants = what.startswith('grants') or what == 'cached_directory' and rng.random() < 0.3
    n = 1 if what.endswith('file') else rng.randint(1, 3)
    names = []
    old = []
    for i in range(n):
        if isGrants:
            name, data, _ = gr.anyFile(rng, i)
        else:
            kind, data, recs, dm = m.file(damaged=rng.random() < 0.1, old=old)
            # another version of a record may be in a file to come
            old = [gen.changed(rng, r) for r in recs if r.kind == 'WOS' and rng.random() < 0.4]
            name = 'f{}{}'.format(i, rng.choice(dirs.EXT[kind]))
        names.append(name)
        ctx.write(os.path.join(d, name), data)
    cls = mk.GrantCollection if isGrants else mk.RecordCollection
    target = os.path.join(d, names[0]) if what.endswith('file') else d
    cached = what == 'cached_directory'
    if cached and rng.random() < 0.5:
        # the cache is there already
        cls(d, cached=True)
    return what, lambda: snap(cls(target, cached=cached)), d


def writers(rng, ctx, mk):
    d = ctx.newdir('out')
    what = rng.choice(['writeFile', 'writeFile', 'writeCSV', 'split_csv', 'writeBib', 'forNLP', 'forBurst', 'rankedSeries', 'timeSeries', 'rpys', 'writeGraph', 'writeTnet'])
    out = os.path.join(d, 'out.txt')
    if what == 'writeGraph':
        g = graphs.graph(rng, kind=rng.choice(['Graph', 'DiGraph']), attrs=rng.random() < 0.7)
        g.graph.clear()
        how = rng.choice([lambda: mk.writeGraph(g, os.path.join(d, 'g')), lambda: mk.writeEdgeList(g, out), lambda: mk.writeNodeAttributeFile(g, out)])
        return what, lambda: how() and None, d, lambda: repr(q.canon(g))
    if what == 'writeTnet':
        import networkx as nx
        g = nx.Graph()
        for i in range(rng.randint(1, 5)):
            g.add_node('a{}'.format(i), type='one')
            g.add_node('b{}'.format(i), type='two')
        for a in list(g):
            for b in list(g):
                if a[0] == 'a' and b[0] == 'b' and rng.random() < 0.5:
                    g.add_edge(a, b, weight=rng.randint(1, 5))
        first = [True]

        def tnet():
            mk.graphHelpers.writeTnetFile(g, out, 'type', weighted=True, sourceMode='one')
        tnet()
        os.remove(out)
        return what, tnet, d, lambda: repr(q.canon(g))
    recs, RC, kind = rc.collection(rng, ctx, kinds=('wos', 'wos', 'med', 'sco'), one=0.8 if what == 'writeFile' else 0.7)
    yk = rng.choice(['year', 'LA'])
    cwd = os.getcwd()

    def split():
        os.chdir(d)
        try:
            RC.writeCSV('s.csv', splitByTag=yk)
        finally:
            os.chdir(cwd)

    def unnamed(write):
        # the file is named after the collection
        os.chdir(d)
        try:
            write()
        finally:
            os.chdir(cwd)
    if what in ('writeFile', 'writeCSV', 'writeBib') and rng.random() < 0.4:
        if rng.random() < 0.5:
            RC.name = rng.choice(['mine', 'a b', 'a/b', 'größe', '漢字.x', 'n' * 230])
        return what, lambda: unnamed(getattr(RC, what)), d, lambda: repr(q.state(RC))
    act = {'writeFile': lambda: RC.writeFile(out), 'writeCSV': lambda: RC.writeCSV(out), 'split_csv': split, 'writeBib': lambda: RC.writeBib(out),
           'forNLP': lambda: bool(RC.forNLP(out)) and None, 'forBurst': lambda: bool(RC.forBurst('title', outputFile=out)) and None,
           'rankedSeries': lambda: bool(RC.rankedSeries('year', outputFile=out)) and None, 'timeSeries': lambda: bool(RC.timeSeries('year', outputFile=out)) and None,
           'rpys': lambda: bool(RC.rpys(1950, 2010)) and None}[what]
    return what, act, d, lambda: repr(q.state(RC))


def attempt(fn):
    import metaknowledge as mk
    try:
        return 'ok', fn()
    except OSError as e:
        return 'os', e
    except mk.mkException as e:
        return 'mk', e


def case(rng, ctx):
    import metaknowledge as mk
    warnings.simplefilter('ignore')
    reading = rng.random() < 0.5
    if reading:
        what, fn, d = readers(rng, ctx, mk)
        state = lambda: None
    else:
        what, fn, d, state = writers(rng, ctx, mk)
    ctx.count('a_' + what)
    inputs = listing(d)
    src = lambda: {k: v for k, v in listing(d).items() if 'DirCache' not in k} if reading else None
    src0, before = src(), state()

    def reset():
        for b, _, fs in os.walk(d):
            for f in fs:
                if os.path.relpath(os.path.join(b, f), d) not in inputs:
                    os.remove(os.path.join(b, f))
        for k, v in inputs.items():
            p = os.path.join(d, k)
            if not os.path.isfile(p) or listing(d).get(k) != v:
                st = None
                ctx.write(p, v)
    kind, want = attempt(fn)
    if not ctx.check(kind == 'ok' or kind == 'mk', 'no-answer', lambda: '{} of a disk that works: {!r}'.format(what, want)):
        return
    wantText = str(want)
    wantKind = kind
    wantFiles = sortedFiles(d) if not reading else None
    piece = rng.choice([7, 40, 40, 300, 5000])
    # the slow disk that works gives the same
    reset()
    plan = faults.Plan(d, piece=piece)
    with faults.Disk(plan):
        kind, got = attempt(fn)
    ctx.eq((kind, str(got) if kind != 'ok' else got), (wantKind, wantText if wantKind != 'ok' else want), 'slow-disk', 'the answer of {} with short reads'.format(what))
    ctx.check(all(f.closed for f in plan.files), 'left-open', lambda: '{} leaves {} open'.format(what, [f.name for f in plan.files if not f.closed]))
    if not reading:
        ctx.eq(sortedFiles(d), wantFiles, 'slow-disk-files', 'the files of {} with short writes'.format(what))
    if not plan.ticks:
        return
    kinds = plan.kinds
    for _ in range(3):
        k = rng.choice([i for i, x in enumerate(kinds) if x == rng.choice(kinds)] or [0]) + 1 if rng.random() < 0.5 else rng.randint(1, len(kinds))
        again = rng.random() < 0.4
        reset()
        plan = faults.Plan(d, k, again, piece)
        tell = lambda: '{} over a disk that fails at step {} of {} ({}{})'.format(what, k, len(kinds), plan.failed[:1], ', from then on' if again else '')
        with faults.Disk(plan):
            try:
                kind, got = attempt(fn)
            except Exception as e:
                ctx.fail('strange-error', '{}: {!r}'.format(tell(), e))
                continue
        got2 = got
        if kind != 'ok':
            got2 = None
            got.__traceback__ = None
        if not plan.failed:
            # files are read in any order, so the step may not have been reached
            ctx.eq((kind, str(got) if kind != 'ok' else got), (wantKind, wantText if wantKind != 'ok' else want), 'unreached')
            continue
        ctx.count('fault_' + plan.failed[0])
        ctx.count('lasting', int(again and len(plan.failed) > 1))
        if kind == 'os':
            ctx.count('raised')
        elif kind == 'mk':
            # a file that could not be looked at is not one of the known kinds
            ctx.count('raised')
        elif not reading:
            ctx.eq(sortedFiles(d), wantFiles, 'written-short', lambda: tell() + ' returned as if all was well, the files')
            ctx.count('unharmed')
        elif got == want:
            ctx.count('unharmed')
            ctx.count('cache_survived', int(what == 'cached_directory'))
        else:
            told = isinstance(got, dict) and got['bad'] and got['errors']
            if ctx.check(told, 'read-short', lambda: '{} gives {} instead of {} and no error'.format(tell(), got, want)):
                ctx.count('flagged')
                have, full = got['records'], want['records']
                if isinstance(have, dict):
                    wrong = [x for x in have if have[x] != full.get(x) and not have[x][1]]
                else:
                    wrong = [x for x in have if x not in full and not x.endswith('True)')]
                ctx.check(not wrong, 'read-wrong', lambda: '{}: {} is not what the file holds: {}'.format(tell(), wrong[:2], full))
        got = got2 = None
        gc.collect() if rng.random() < 0.02 else None
        ctx.eq(state(), before, 'changed', lambda: 'what was written, after {}'.format(tell()))
        ctx.eq(src(), src0, 'input-touched', lambda: 'the files read, after {}'.format(tell()))
        # the disk works again
        kind, got = attempt(fn)
        ctx.eq((kind, str(got) if kind != 'ok' else got), (wantKind, wantText if wantKind != 'ok' else want), 'not-again', lambda: 'asked again after {}'.format(tell()))
        if not reading:
            left = sortedFiles(d)
            ctx.eq({x: left.get(x) for x in wantFiles}, wantFiles, 'not-again-files', lambda: 'written again after {}'.format(tell()))
        ctx.sig(what, k, kinds, piece, again, plan.failed)
    ctx.sample({'action': what, 'steps': len(kinds), 'piece': piece})
