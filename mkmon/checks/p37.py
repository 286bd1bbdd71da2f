"""Threads that work at the same time get the answers each would get alone."""
import copy
import importlib
import os
import random
import threading
import warnings
from mkmon import dirs, grants as gr, graphs, queries as q, rc, sched
from mkmon.checks import p27, p34, p36

ID = 'P37'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 5000, 80000
RULE = ('Two or three threads put 1-3 of 60 kinds of questions each to collections, graphs and grants they share, read the same files and directories (with and without a cache), or use the lists of journals and names for the first time; '
        'one thread runs at a time and hands over between two lines of the package where a random generator says so (in 0.2 to 50 of 100 lines). Every answer is compared with the one a fresh equal collection gives alone, and what is '
        'shared with what it was. Non-trivial: at least two hand-overs.')
ASSUMPTIONS = ['Threads hand over between lines of the package.', 'Threads that change the same collection in place are not tried.', 'Every thread writes to files of its own; a shared cache of a directory is the exception.']
REQUIRED = ['shared_questions', 'shared_graphs', 'shared_grants', 'reading', 'cached_reading', 'first_use', 'own_collections', 'three_threads', 'switches', 'with_raised']


def ask(fns, prefix):
    def go():
        q.LOCAL.prefix = prefix
        return [p27.answer(*f) for f in fns]
    return go


def together(rng, ctx, fns):
    s = sched.Schedule(random.Random(rng.random()), rng.choice([0.002, 0.02, 0.1, 0.5]))
    got = s.run(fns)
    ctx.count('switches', s.switches)
    ctx.count('lines', s.lines)
    ctx.count('three_threads', int(len(fns) == 3))
    ctx.check(not s.wedged, 'blocked', 'the threads wait for each other')
    return got, s


def judge(ctx, got, want, s, names, mechanism):
    for t, (g, w) in enumerate(zip(got, want)):
        if isinstance(g, BaseException):
            ctx.fail(mechanism, 'thread {} of {} ended with {!r}'.format(t, names, g))
            continue
        for i, (a, b) in enumerate(zip(g, w)):
            a = tuple(x.replace('t{}_'.format(t), '') for x in a)
            b = tuple(x.replace('t{}_'.format(t), '') for x in b)
            if b[0] == 'raised':
                ctx.count('with_raised')
            ctx.eq(a, b, mechanism, lambda: '{} in thread {} of {} after {} hand-overs'.format(names[t][i], t, names, s.switches))
    if s.switches > 1:
        ctx.sig(names, s.digest.hexdigest())
        ctx.sample({'threads': names, 'hand_overs': s.switches, 'places': len(s.places)})


def questions(rng, ctx):
    """Shared collections, or collections of their own"""
    import metaknowledge as mk
    kind = rng.random()
    n = rng.choice([2, 2, 3])
    plan = []
    own = False
    if kind < 0.65:
        texts, k = p27.records(rng, ctx)
        texts2 = rng.sample(texts, rng.randint(0, len(texts))) if rng.random() < 0.5 else p27.records(rng, ctx)[0]
        bads = ['PT J\nAU Nobody, N\nPY 2001\nUT WOS:BAD\n'] if rng.random() < 0.2 else []
        own = rng.random() < 0.2
        ctx.count('own_collections' if own else 'shared_questions')
        keys = rc.keysFor(rng, k)
        make = lambda: (p27.build(mk, texts, bads, 'one'), p27.build(mk, texts2, [], 'two'))
        pick = lambda: q.collectionQuery(rng, keys)
        st = lambda a: (p36.stateOf(a[0]), p36.stateOf(a[1]))
    elif kind < 0.85:
        ctx.count('shared_graphs')
        g, h = graphs.graph(rng, hard=False), graphs.graph(rng, hard=False)
        if type(h) is not type(g):
            h = type(g)(h)
        make = lambda: (copy.deepcopy(g), copy.deepcopy(h))
        pick = lambda: q.graphQuery(rng)
        st = lambda a: (q.canon(a[0]), q.canon(a[1]))
    else:
        ctx.count('shared_grants')
        pair, tags, _ = p27.grantPair(rng, ctx)
        make = lambda: tuple(pair())
        pick = lambda: q.grantQuery(rng, tags)
        st = lambda a: (sorted(str(G.id) for G in a[0]), sorted(str(G.id) for G in a[1]), a[0].name, a[0].bad)
    same = pick() if rng.random() < 0.4 else None
    for t in range(n):
        plan.append([same if same is not None and rng.random() < 0.7 else pick() for _ in range(rng.choice([1, 1, 2, 3]))])
    names = [[x[0] for x in p] for p in plan]
    files = os.listdir('.')
    want = []
    for t, p in enumerate(plan):
        w = []
        for x in p:
            q.LOCAL.prefix = 't{}_'.format(t)
            w.append(p27.answer(x[1], *make()))
            p36.tidy(files)
        want.append(w)
    q.LOCAL.prefix = ''
    args = repr([[x[2] for x in p] for p in plan])
    shared = make()
    before = repr(st(shared))
    got, s = together(rng, ctx, [ask([(x[1],) + (make() if own else shared) for x in p], 't{}_'.format(t)) for t, p in enumerate(plan)])
    p36.tidy(files)
    judge(ctx, got, want, s, names, 'answer')
    ctx.eq(repr(st(shared)), before, 'changed', lambda: 'by {}'.format(names))
    ctx.eq(repr([[x[2] for x in p] for p in plan]), args, 'arguments-changed', lambda: 'by {}'.format(names))
    # afterwards it answers as before
    p = rng.choice(plan)
    again = p27.answer(p[0][1], *shared)
    p36.tidy(files)
    w = want[plan.index(p)][0]
    ctx.eq(tuple(x.replace('t{}_'.format(plan.index(p)), '') for x in w), again, 'spoiled', lambda: '{} asked again after {}'.format(p[0][0], names))


def reading(rng, ctx):
    import metaknowledge as mk
    d = ctx.newdir('in')
    m = dirs.Maker(rng)
    grants = rng.random() < 0.35
    one = rng.random() < 0.3
    for i in range(1 if one else rng.randint(1, 3)):
        if grants:
            name, data, _ = gr.anyFile(rng, i)
        else:
            kind, data, recs, dm = m.file(damaged=rng.random() < 0.2)
            name = 'f{}{}'.format(i, rng.choice(dirs.EXT[kind]))
        ctx.write(os.path.join(d, name), data)
    cls = mk.GrantCollection if grants else mk.RecordCollection
    cached = not one and rng.random() < 0.6
    ctx.count('cached_reading' if cached else 'reading')
    target = os.path.join(d, name) if one else d
    plain = lambda: p36.snapText(cls(target))
    fn = lambda: p36.snapText(cls(target, cached=cached))
    want = p27.answer(plain)
    if cached and rng.random() < 0.3:
        cls(d, cached=True)
    n = rng.choice([2, 2, 3])
    got, s = together(rng, ctx, [ask([(fn,)], '') for _ in range(n)])
    judge(ctx, got, [[want]] * n, s, [['read' + ' cached' * cached]] * n, 'read')
    ctx.eq(p27.answer(fn), want, 'read-again', lambda: 'after {} threads read it'.format(n))


def firstUse(rng, ctx):
    ctx.count('first_use')
    import metaknowledge as mk
    cits = ['SMITH J, 2001, {}, V1, P2'.format(j) for j in rng.sample(['NATURE', 'SOC NETWORKS', 'PHYS REV', 'J NOWHERE', 'SCIENCE', 'LANCET'], 3)]
    names = rng.sample(['Smith, John', 'Doe, Mary', 'X, Qwxz', 'Li, Jean', 'Lee, Anne-Marie'], 2)
    kinds = [rng.random() < 0.6 for _ in range(rng.choice([2, 2, 3]))]
    seed = rng.random()

    def journals():
        return [(str(mk.Citation(c).isJournal()), str(mk.Citation(c).FullJournalName())) for c in cits]

    def genders():
        return [mk.genders.nameGender.nameStringGender(n, noExcept=True) for n in names]

    def child():
        want = [(journals if k else genders)() for k in kinds]
        importlib.reload(importlib.import_module('metaknowledge.genders.nameGender'))
        importlib.reload(importlib.import_module('metaknowledge.citation'))
        r = random.Random(seed)
        s = sched.Schedule(r, r.choice([0.01, 0.1, 0.5]))
        got = s.run([journals if k else genders for k in kinds])
        return {'want': want, 'got': [repr(g) if isinstance(g, BaseException) else g for g in got], 'switches': s.switches, 'digest': s.digest.hexdigest(), 'wedged': s.wedged}
    res = p34.forked(child)
    if not ctx.check('error' not in res, 'first-use-fails', lambda: res['error']):
        return
    ctx.count('switches', res['switches'])
    ctx.check(not res['wedged'], 'blocked', 'the threads wait for each other')
    ctx.eq(res['got'], res['want'], 'first-use', lambda: 'journals or names {} first used by threads'.format(kinds))
    if res['switches'] > 1:
        ctx.sig('first', kinds, res['digest'])


def case(rng, ctx):
    warnings.simplefilter('ignore')
    try:
        rng.choice([questions] * 6 + [reading, reading, firstUse])(rng, ctx)
    finally:
        q.LOCAL.prefix = ''
