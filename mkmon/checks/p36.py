"""An interrupt ends what runs, at any line, and does no harm to what is there."""
import copy
import importlib
import os
import shutil
import warnings
from mkmon import dirs, faults, gen, grants as gr, graphs, queries as q, rc
from mkmon.checks import p27, p34

ID = 'P36'
LEVEL = 'fault_enumeration'
QUICK_N, THOROUGH_N = 12000, 120000
RULE = ('Random readings of files and directories, 45 kinds of questions to collections and graphs, and changes made to collections and graphs in place are run once to count the lines of the package they pass, and again with an '
        'interrupt or a request to exit at the k-th line; what it leads to, what is left of the collection, graph, arguments and files, and the answer when asked again are compared with a run without interrupts. '
        'Non-trivial: the interrupt hit a line new for the action.')
ASSUMPTIONS = ['Interrupts come between two lines of the package.', 'A change made in place that is interrupted may be done in part.', 'Unfinished output files may be left by an interrupted writing.']
REQUIRED = ['question', 'graph_question', 'reading', 'cached_reading', 'grant_reading', 'change', 'graph_change', 'first_use', 'interrupts', 'exits', 'ended', 'lines']
OPS = ['add', 'discard', 'remove', 'removeID', 'discardID', '__ior__', '__iand__', '__isub__', '__ixor__', 'dropBadEntries', 'dropNonJournals', 'dropNoneJournals', 'clear']


def run(fn):
    try:
        return ('answer', repr(q.canon(fn())))
    except Exception as e:
        return ('raised', type(e).__name__, str(e)[:200])


def snapText(C):
    import metaknowledge as mk
    if isinstance(C, mk.RecordCollection):
        return repr(sorted((k, repr(v)) if k != 'records' else (k, sorted(map(repr, v.items()))) for k, v in dirs.snapshot(C).items()))
    return repr((sorted(repr((type(G).__name__, str(G.id), sorted((k, repr(v)) for k, v in G.items()), bool(G.bad))) for G in C), C.name, C.bad, sorted(C.errors)))


class Act:
    """make() gives the things fn(*things) works on, state(*things) is what must not change"""

    def __init__(self, name, make, fn, state, judge=None):
        self.name, self.make, self.fn, self.state, self.judge = name, make, fn, state, judge


def question(rng, ctx):
    import metaknowledge as mk
    ctx.count('question')
    texts, kind = p27.records(rng, ctx)
    texts2 = p27.records(rng, ctx)[0] if rng.random() < 0.4 else texts[:2]
    name, fn, args = q.collectionQuery(rng, rc.keysFor(rng, kind))
    was = copy.deepcopy(args)
    return Act(name, lambda: (p27.build(mk, texts, [], 'one'), p27.build(mk, texts2, [], 'two')), fn,
               lambda C, D: (repr(sorted(map(repr, map(list, map(dict.items, (stateOf(C), stateOf(D))))))), repr(args) == repr(was)))


def stateOf(C):
    s = q.state(C)
    s['records'] = sorted(map(repr, [v for v in s['records'].values()]))
    return s


def graphQuestion(rng, ctx):
    ctx.count('graph_question')
    g = graphs.graph(rng, hard=False)
    h = graphs.graph(rng, hard=False)
    if type(h) is not type(g):
        h = type(g)(h)
    name, fn, args = q.graphQuery(rng)
    return Act(name, lambda: (copy.deepcopy(g), copy.deepcopy(h)), fn, lambda a, b: repr((q.canon(a), q.canon(b))))


def reading(rng, ctx):
    import metaknowledge as mk
    d = ctx.newdir('in')
    m = dirs.Maker(rng)
    grants = rng.random() < 0.35
    ctx.count('grant_reading' if grants else 'reading')
    one = rng.random() < 0.5
    for i in range(1 if one else rng.randint(1, 3)):
        if grants:
            name, data, _ = gr.anyFile(rng, i)
        else:
            kind, data, recs, dm = m.file(damaged=rng.random() < 0.2)
            name = 'f{}{}'.format(i, rng.choice(dirs.EXT[kind]))
        ctx.write(os.path.join(d, name), data)
    cls = mk.GrantCollection if grants else mk.RecordCollection
    cached = not one and rng.random() < 0.6
    ctx.count('cached_reading', int(cached))
    target = os.path.join(d, name) if one else d
    if cached and rng.random() < 0.5:
        cls(d, cached=True)
    files = lambda: repr(sorted((f, ctx.read(os.path.join(d, f))) for f in os.listdir(d) if 'DirCache' not in f))
    keep = {f: ctx.read(os.path.join(d, f)) for f in os.listdir(d) if 'DirCache' in f}

    def make():
        # the cache is as it was at first
        for f in os.listdir(d):
            if 'DirCache' in f and f not in keep:
                os.remove(os.path.join(d, f))
        for f, data in keep.items():
            ctx.write(os.path.join(d, f), data)
        return ()
    return Act('cached' if cached else 'read', make, lambda: snapText(cls(target, cached=cached)), lambda: files())


def change(rng, ctx):
    """In place: what both before and after hold is kept and nothing else comes"""
    import metaknowledge as mk
    ctx.count('change')
    texts, kind = p27.records(rng, ctx)
    texts2 = [t for t in p27.records(rng, ctx)[0]] if rng.random() < 0.5 else rng.sample(texts, len(texts) // 2)
    bads = ['PT J\nAU Nobody, N\nPY 2001\nUT WOS:BAD\n'] if rng.random() < 0.3 else []
    op = rng.choice(OPS)
    pick = rng.random()

    def make():
        return p27.build(mk, texts, bads, 'one'), p27.build(mk, texts2, [], 'two')

    def fn(C, D):
        recs = sorted(C, key=lambda R: str(R.id))
        R = recs[int(pick * len(recs))] if recs else None
        if op in ('discard', 'remove'):
            getattr(C, op)(R)
        elif op in ('removeID', 'discardID'):
            getattr(C, op)(R.id if R is not None else 'x')
        elif op == 'add':
            for x in sorted(D, key=lambda R: str(R.id)):
                C.add(x)
        elif op.startswith('__'):
            getattr(C, op)(D)
        elif op == 'dropNonJournals':
            C.dropNonJournals()
        elif op == 'dropNoneJournals':
            C.dropNonJournals(invert=True)
        else:
            getattr(C, op)()
        return sorted(str(R.id) for R in C)

    def judge(ctx, before, after, now, tell):
        (a, _), (b, _), (c, d) = before, after, now
        ctx.check(a & b <= c <= a | b, 'change-harms', lambda: '{}: of {} and {} it leaves {}'.format(tell(), sorted(a), sorted(b), sorted(c)))
    ids = lambda C: {(type(R).__name__, str(R.id), bool(R.bad)) for R in C}
    return Act('change ' + op, make, fn, lambda C, D: (ids(C), ids(D)), judge)


def graphChange(rng, ctx):
    import metaknowledge as mk
    ctx.count('graph_change')
    g = graphs.graph(rng, kind=rng.choice(['Graph', 'DiGraph']), hard=False, attrs=False, density=0.5)
    for a, b in g.edges():
        g[a][b]['weight'] = rng.randint(1, 5)
    for n in g:
        g.nodes[n]['count'] = rng.randint(1, 5)
    w = rng.randint(1, 4)
    op = rng.choice([lambda x: mk.dropEdges(x, minWeight=w), lambda x: mk.dropNodesByDegree(x, minDegree=w), lambda x: mk.dropNodesByCount(x, minCount=w)])

    def parts(x):
        return {repr(n) for n in x.nodes(data=True)} | {repr(sorted(map(repr, e[:2])) if not x.is_directed() else e[:2]) + repr(e[2]) for e in x.edges(data=True)}

    def fn(x):
        r = op(x)
        return x if r is None else r

    def judge(ctx, before, after, now, tell):
        a, b, c = before, after, now
        ctx.check(a & b <= c <= a | b, 'graph-change-harms', lambda: '{}: it leaves {}'.format(tell(), sorted(c ^ a)))
    return Act('graph change', lambda: (copy.deepcopy(g),), fn, parts, judge)


def firstUse(rng, ctx):
    """The lists of journals and names are loaded when they are first needed"""
    import metaknowledge as mk
    ctx.count('first_use')
    journal = rng.random() < 0.6
    cits = ['SMITH J, 2001, {}, V1, P2'.format(j) for j in rng.sample(['NATURE', 'SOC NETWORKS', 'PHYS REV', 'J NOWHERE', 'SCIENCE', 'LANCET'], 3)]
    names = ['Smith, John', 'Doe, Mary', 'X, Qwxz', 'Li, Jean']
    frac = rng.random()
    what = rng.choice([KeyboardInterrupt, SystemExit])

    def ask():
        if journal:
            return [(mk.Citation(c).isJournal(), str(mk.Citation(c).FullJournalName())) for c in cits]
        return [mk.genders.nameGender.nameStringGender(n, noExcept=True) for n in names]

    def fresh():
        importlib.reload(importlib.import_module('metaknowledge.genders.nameGender'))
        importlib.reload(importlib.import_module('metaknowledge.citation'))

    def child():
        global importlib
        fresh()
        count = faults.Interrupts()
        with count:
            want = ask()
        k = int(frac * count.n) + 1
        fresh()
        i = faults.Interrupts(what, k)
        ended = ''
        got = None
        try:
            with i:
                got = ask()
        except BaseException as e:
            ended = type(e).__name__
        return {'want': want, 'first': got, 'ended': ended, 'again': ask(), 'n': count.n, 'where': i.where}
    res = p34.forked(child)
    if not ctx.check('error' not in res, 'first-use-fails', lambda: res['error']):
        return
    ctx.count('lines', res['n'])
    ctx.count('ended', int(res['ended'] == what.__name__))
    tell = 'journals' if journal else 'names'
    ctx.check(res['ended'] == what.__name__ or res['first'] == res['want'] and not res['ended'], 'first-use-swallowed', lambda: '{} at {} while the {} are loaded leads to {} {}'.format(what.__name__, res['where'], tell, res['ended'], res['first']))
    ctx.eq(res['again'], res['want'], 'first-use-spoiled', lambda: '{} asked again after {} at {}'.format(tell, what.__name__, res['where']))
    ctx.sig('first', journal, res['where'], cits)


def tidy(files):
    for f in set(os.listdir('.')) - set(files):
        (shutil.rmtree if os.path.isdir(f) else os.remove)(f)


def case(rng, ctx):
    warnings.simplefilter('ignore')
    kind = rng.choice([question, question, question, question, graphQuestion, reading, reading, change, graphChange, firstUse])
    if kind is firstUse:
        return firstUse(rng, ctx)
    act = kind(rng, ctx)
    files = os.listdir('.')
    things = act.make()
    before = act.state(*things)
    lines = faults.Interrupts()
    with lines:
        want = run(lambda: act.fn(*things))
    after = act.state(*things)
    if act.judge is None:
        ctx.eq(after, before, 'changed', 'by ' + act.name)
    tidy(files)
    ctx.count('lines', lines.n)
    if not lines.n:
        return
    for _ in range(3 if lines.n < 3000 else 1):
        k = lines.pick(rng)
        what = rng.choice([KeyboardInterrupt, KeyboardInterrupt, SystemExit])
        ctx.count('interrupts' if what is KeyboardInterrupt else 'exits')
        things = act.make()
        i = faults.Interrupts(what, k)
        tell = lambda: '{} at line {} of {} of {} ({})'.format(what.__name__, k, lines.n, act.name, i.where)
        got = None
        try:
            with i:
                got = run(lambda: act.fn(*things))
        except (KeyboardInterrupt, SystemExit) as e:
            ctx.check(type(e) is what, 'turned', lambda: '{} came out as {!r}'.format(tell(), e))
            ctx.count('ended')
            e.__traceback__ = None
        else:
            if i.where is not None:
                # one that comes while something is thrown away is lost, which must not be seen
                ctx.check(i.lost, 'swallowed-there', lambda: '{} was swallowed'.format(tell()))
                ctx.count('lost')
            ctx.eq(got, want, 'swallowed', lambda: 'the answer after {}'.format(tell()))
        tidy(files)
        now = act.state(*things)
        if act.judge:
            act.judge(ctx, before, after, now, tell)
        else:
            ctx.eq(now, before, 'harmed', lambda: 'what {} leaves'.format(tell()))
            # asked again of the very same things
            again = run(lambda: act.fn(*things))
            ctx.eq(again, want, 'not-again', lambda: 'asked again after {}'.format(tell()))
            tidy(files)
        ctx.sig(act.name, i.where)
    ctx.sample({'action': act.name, 'lines': lines.n})
