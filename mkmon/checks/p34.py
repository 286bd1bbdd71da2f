"""A session at the command line does what its answers say."""
import builtins
import code as codemod
import csv
import dbm.dumb
import io
import json
import os
import re
import sys
import warnings
from mkmon import citenet as cn, gen, rc, standins

ID = 'P34'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 4000, 60000
STANDINS = True
RULE = ('Scripted sessions of the command line: random arguments, files, answers to every question, among them wrong, empty and repeated ones, the python console, quitting, interrupts and the end of the input at any question, '
        'names of files that exist; every file written, the files left alone, the journal database and the way the session ends are compared with what the same steps in Python give. Non-trivial: at least one file was written or one journal classified.')
ASSUMPTIONS = ['The terminal is replaced by a scripted user; texts shown are not compared, save that the question about a journal names it.', 'The view of a graph, which needs a display, is not asked for.']
REQUIRED = ['menus', 'told', 'from_home', 'quiet', 'sessions', 'asked_files', 'wrong_files', 'wrong_menu', 'console', 'quit', 'interrupted', 'ended', 'wos_written', 'csv_written', 'cites_written', 'only_journals', 'one_mode', 'two_mode', 'multi_mode', 'citation',
            'co_citation', 'co_author', 'thresholds', 'wrong_number', 'wrong_tag', 'graph_files', 'edge_list', 'node_list', 'graphml', 'existing', 'overwritten', 'not_overwritten', 'named', 'empty_name', 'journals_added',
            'journals_excluded', 'journals_known', 'own_database', 'no_journal', 'several_files', 'suffix', 'untouched', 'debug']


class Stop(BaseException):
    """Asked more often than there are answers"""


class Bad(Exception):
    pass


class User:
    """Answers every question from a list; an answer may be an exception or a function of the question"""

    def __init__(self, answers):
        self.answers, self.asked, self.shown, self.seen = list(answers), [], [], 0

    def __call__(self, prompt=''):
        self.asked.append(str(prompt))
        text = sys.stdout.getvalue() if isinstance(sys.stdout, io.StringIO) else ''
        self.shown.append(text[self.seen:])
        self.seen = len(text)
        if not self.answers:
            raise Stop(str(prompt)[-200:])
        a = self.answers[0]
        if callable(a) and not isinstance(a, type):
            r = a(str(prompt))
            if r is not None:
                return r
            self.answers.pop(0)
            return self(prompt)
        self.answers.pop(0)
        if isinstance(a, type):
            raise a()
        return a


def session(argv, user):
    """(how it ended, how often the console was opened)"""
    from metaknowledge import bin as mkbin
    consoles = []
    old = builtins.input, codemod.interact, sys.argv, sys.stdout, sys.stderr
    builtins.input = user
    codemod.interact = lambda *a, **k: consoles.append(1)
    sys.argv = argv
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    try:
        try:
            r = mkbin.mkCLI()
            end = ('returned', r if not isinstance(r, BaseException) else type(r).__name__)
            if isinstance(r, BaseException):
                end += (str(r)[:200],)
        except Stop as e:
            end = ('asked-again', str(e))
        except BaseException as e:
            end = ('raised', type(e).__name__, str(e)[:200])
    finally:
        builtins.input, codemod.interact, sys.argv, sys.stdout, sys.stderr = old
    return end, len(consoles)


# ---- what a file says, without the order of its rows -------------------------------------
def blank(row):
    return tuple(sorted((str(k), str(v)) for k, v in row.items() if v not in ('', None)))


def says(kind, data):
    text = data.decode('utf-8')
    if kind == 'wos':
        parts = text.split('ER\n\n')
        return (parts[0].split('PT ')[0], sorted(p.split('PT ', 1)[-1] for p in parts[:-1]), parts[-1])
    if kind == 'cites':
        return sorted(text.splitlines())
    if kind == 'graphml':
        import networkx as nx
        g = nx.parse_graphml(text)
        return graphSays(g)
    rows = list(csv.DictReader(io.StringIO(text, newline='')))
    head = sorted((rows[0].keys() if rows else next(csv.reader(io.StringIO(text, newline='')), [])), key=str)
    return (head, sorted(blank(r) for r in rows))


def edgesSay(data, directed):
    rows = list(csv.DictReader(io.StringIO(data.decode('utf-8'), newline='')))
    return sorted(((tuple((r['Source'], r['Target'])) if directed else tuple(sorted((r['Source'], r['Target'])))), blank({k: v for k, v in r.items() if k not in ('Source', 'Target')})) for r in rows)


def graphEdges(g):
    return sorted(((tuple(map(str, (u, v))) if g.is_directed() else tuple(sorted(map(str, (u, v))))), blank(d)) for u, v, d in g.edges(data=True))


def graphNodes(g):
    return sorted(blank(dict(d, ID=n)) for n, d in g.nodes(data=True))


def graphSays(g):
    return (g.is_directed(), graphNodes(g), graphEdges(g))


# ---- plans -------------------------------------------------------------------------------
class Plan:
    """Answers with the state expected after each: files by name, and whether a menu is open"""

    def __init__(self):
        self.tells = {}     # numbers shown before the question of a step
        self.steps = []     # (answer, the choices of the menu if one is open, files {name: (kind, expected)} written once it is given)
        self.console = 0

    def say(self, a, menu=False, files=None):
        self.steps.append((a, menu, files or {}))


def junk(rng, ctx, p, options, n=2):
    while rng.random() < 0.12 * n:
        ctx.count('wrong_menu')
        p.say(rng.choice([w for w in ['', '9', 'x', ' 1', '1 ', 'Q', 'no', '12', '-1', '٣'] if w not in options]), options)
    if rng.random() < 0.05:
        p.say('i', options)
        p.console += 1
        ctx.count('console')
        junk(rng, ctx, p, options, n)


def outName(rng, ctx, p, name, suffix, present, writes, checking=True):
    """Plans the answers naming a file. writes(name) -> {file: (kind, expected)}"""
    if name:
        ctx.count('named')
        p.steps[-1] = p.steps[-1][:2] + (dict(p.steps[-1][2], **writes(name)),)
        ctx.count('existing', int(any(f in present for f in writes(name))))
        return
    while rng.random() < 0.1:
        ctx.count('empty_name')
        p.say('')
    n = rng.choice(['out', 'other', 'my net', 'größe', 'a.b', 'old'])
    taken = [f for f in writes(n) if f in present] if checking else ([n + suffix] if n + suffix in present else [])
    if not taken:
        p.say(n, False, writes(n))
        return
    ctx.count('existing')
    p.say(n)
    while rng.random() < 0.2:
        p.say(rng.choice(['p', 'yes', '0', ' y']))
    if rng.random() < 0.5:
        ctx.count('not_overwritten')
        p.say(rng.choice(['n', 'N']))
        return outName(rng, ctx, p, name, suffix, present, writes)
    ctx.count('overwritten')
    p.say(rng.choice(['y', 'Y', '']), False, writes(n))


def tag(rng, ctx, p, tags, blank=False):
    while rng.random() < 0.15:
        ctx.count('wrong_tag')
        p.say(rng.choice(['NOT A TAG', 'ZZ', '9'] + ([] if blank else [''])))
    t = rng.choice(tags)
    p.say(t if rng.random() < 0.7 else t.lower())
    return t


def network(rng, ctx, p, C):
    opts = '123456'
    junk(rng, ctx, p, opts)
    k = rng.choice(opts)
    p.say(k, opts)
    tags = sorted(C.tags() & {'AF', 'AU', 'UT', 'SO', 'PY', 'J9', 'DE', 'CR', 'ID', 'WC'})
    if not tags and k in '123':
        raise Bad()
    if k == '1':
        ctx.count('one_mode')
        t = tag(rng, ctx, p, tags)
        return C.networkOneMode(t)
    if k == '2':
        ctx.count('two_mode')
        a = tag(rng, ctx, p, tags)
        b = tag(rng, ctx, p, tags)
        if a == b:
            raise Bad()
        return C.networkTwoMode(a, b)
    if k == '3':
        ctx.count('multi_mode')
        ts = [tag(rng, ctx, p, tags)]
        for _ in range(rng.randint(0, 3)):
            ts.append(tag(rng, ctx, p, tags, True))
        p.say('')
        if len(set(ts)) != len(ts):
            raise Bad()
        return C.networkMultiMode(ts)
    if k == '4':
        ctx.count('citation')
        return C.networkCitation()
    if k == '5':
        ctx.count('co_citation')
        return C.networkCoCitation()
    ctx.count('co_author')
    return C.networkCoAuthor()


def number(rng, ctx, p):
    while rng.random() < 0.15:
        ctx.count('wrong_number')
        p.say(rng.choice(['ten', '', 'two', '1,5', 'x1']))
    v = rng.choice(['1', '2', '3', '1.5', '0', '-1', '1e0', ' 2'])
    p.say(v)
    return float(v)


def thresholds(rng, ctx, p, g):
    import networkx as nx
    while True:
        p.tells[len(p.steps)] = [len(g), g.number_of_edges(), sum(1 for n in g if not g.degree(n)), nx.number_of_selfloops(g)]
        junk(rng, ctx, p, '0123456', 1)
        k = rng.choice('00001235')
        p.say(k, '0123456')
        if k == '0':
            return g
        ctx.count('thresholds')
        if k == '1':
            g.remove_nodes_from([n for n in list(g) if g.degree(n) < 1])
        elif k == '2':
            g.remove_edges_from(list(nx.selfloop_edges(g)))
        elif k == '3':
            m = number(rng, ctx, p)
            g.remove_edges_from([(u, v) for u, v, w in list(g.edges(data='weight')) if w < m])
        else:
            m = number(rng, ctx, p)
            # a loop touches its node once
            g.remove_nodes_from([n for n in list(g) if g.degree(n, weight='weight') - (g[n][n].get('weight', 1) if g.has_edge(n, n) else 0) < m])


def output(rng, ctx, p, g, name, present):
    p.tells[len(p.steps)] = [len(g), g.number_of_edges()]
    junk(rng, ctx, p, '01234')
    k = rng.choice('1122334')
    p.say(k, '01234')
    if k == '1':
        ctx.count('graph_files')
        outName(rng, ctx, p, name, '', present, lambda n: {n + '_edgeList.csv': ('edges', (g.is_directed(), graphEdges(g))), n + '_nodeAttributes.csv': ('nodes', graphNodes(g))})
    elif k == '2':
        ctx.count('edge_list')
        outName(rng, ctx, p, name, '.csv', present, lambda n: {n + '.csv': ('edges', (g.is_directed(), graphEdges(g)))})
    elif k == '3':
        ctx.count('node_list')
        outName(rng, ctx, p, name, '.csv', present, lambda n: {n + '.csv': ('nodes', graphNodes(g))})
    else:
        ctx.count('graphml')
        # the format holds texts and numbers only, and xml not every character
        if any(not isinstance(v, (str, int, float)) for ds in (g.nodes(data=True), g.edges(data=True)) for x in ds for v in x[-1].values()):
            raise Bad()
        outName(rng, ctx, p, name, '.graphml', present, lambda n: {n + '.graphml': ('graphml', graphSays(g))})


def direct(C, how):
    """What the library writes for the collection"""
    d = '.direct'
    os.mkdir(d)
    try:
        f = os.path.join(d, 'x')
        (C.writeFile if how == 'wos' else C.writeCSV)(f)
        with open(f, 'rb') as h:
            return says(how, h.read())
    finally:
        for x in os.listdir(d):
            os.remove(os.path.join(d, x))
        os.rmdir(d)


def listing():
    out = {}
    for f in os.listdir('.'):
        if os.path.isfile(f):
            with open(f, 'rb') as h:
                out[f] = h.read()
    return out


def files(rng, ctx, mk, recs, texts):
    """Writes the records to files; (arguments, bad answers first, collection)"""
    n = rng.choice([1, 1, 2, 3])
    ctx.count('several_files', int(n > 1))
    parts = [[] for _ in range(n)]
    for t in texts:
        rng.choice(parts).append(t)
    if rng.random() < 0.3 and texts:
        rng.choice(parts).append(rng.choice(texts))
    head = 'FN Thomson Reuters Web of Science\nVR 1.0\n'
    suffix = ''
    if rng.random() < 0.3:
        ctx.count('suffix', 1)
        suffix = '.isi'
        d = ctx.newdir('in')
        for i, q in enumerate(parts):
            ctx.write(os.path.join(d, 'f{}.isi'.format(i)), head + ''.join(q) + 'EF')
        ctx.write(os.path.join(d, 'not.txt'), head + 'PT J\nUT WOS:NOTREAD\nER\n\nEF')
        names = [d]
    else:
        d = ctx.newdir('in')
        names = []
        for i, q in enumerate(parts):
            f = os.path.join(d, 'g{}.isi'.format(i))
            ctx.write(f, head + ''.join(q) + 'EF')
            names.append(f)
    C = mk.RecordCollection(name='')
    for f in names:
        C |= mk.RecordCollection(f, extension=suffix)
    return names, suffix, C


def compare(ctx, before, want, label):
    after = listing()
    names = set(before) | set(want)
    ctx.eq(sorted(after), sorted(names), 'files', label)
    for f in names:
        if f not in after:
            continue
        if f in want:
            kind, exp = want[f]
            if kind == 'edges':
                got = edgesSay(after[f], exp[0])
                exp = exp[1]
            elif kind == 'nodes':
                got = sorted(blank(r) for r in csv.DictReader(io.StringIO(after[f].decode('utf-8'), newline='')))
            else:
                got = says(kind, after[f])
            ctx.eq(got, exp, 'written-' + kind, '{} {}'.format(label, f))
        else:
            ctx.count('untouched')
            ctx.eq(after[f], before[f], 'touched', '{} {}'.format(label, f))


def case(rng, ctx):
    import metaknowledge as mk
    warnings.simplefilter('ignore')
    ctx.count('sessions')
    mk.VERBOSE_MODE = False
    work = ctx.newdir('work')
    there = os.getcwd()
    home = os.environ.get('HOME')
    recs = [r for r in cn.records(rng, ctx)[0]]
    texts = [r.text() for r in recs]
    try:
        os.chdir(work)
        os.environ['HOME'] = os.path.dirname(os.path.abspath(work))
        names, suffix, C = files(rng, ctx, mk, recs, [t if t.endswith('\n\n') else t.rstrip('\n') + '\n\n' for t in texts])
        if not len(C) or C.bad:
            return
        for f in rng.sample(['out.csv', 'out.txt', 'old.txt', 'old.csv', 'out_edgeList.csv', 'old.graphml', 'other_nodeAttributes.csv', 'old', 'out'], rng.randint(0, 5)):
            with open(f, 'w') as h:
                h.write('was here before')
        try:
            one(rng, ctx, mk, names, suffix, C)
        except Bad:
            pass
    finally:
        os.chdir(there)
        mk.VERBOSE_MODE = False
        if home is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = home


def one(rng, ctx, mk, names, suffix, C):
    p = Plan()
    argv = ['metaknowledge']
    name = None
    if rng.random() < 0.7:
        argv.append(rng.choice(['-q', '--quiet']))
    debug = rng.random() < 0.3
    if debug:
        ctx.count('debug')
        argv.append(rng.choice(['-d', '--debug']))
    if rng.random() < 0.2:
        name = rng.choice(['out', 'named', 'old'])
        argv += [rng.choice(['-n', '--name']), name]
    if suffix:
        argv += [rng.choice(['-s', '--suffix']), suffix]
    if rng.random() < 0.3:
        # as seen from home
        ctx.count('from_home')
        names = [os.path.join('~', os.path.relpath(os.path.abspath(f), os.environ['HOME'])) for f in names]
    if rng.random() < 0.7 or any(' ' in f for f in names):
        argv += names
    else:
        ctx.count('asked_files')
        while rng.random() < 0.3:
            ctx.count('wrong_files')
            p.say(rng.choice(['no such', 'nothing.isi', names[0] + ' missing.isi']))
        p.say(' '.join(names))
    p.tells[len(p.steps)] = [len(C)]
    junk(rng, ctx, p, '1234567')
    k = rng.choice('1111223344567')
    p.say(k, '1234567')
    present = set(listing())
    if k in '67':
        return journals(rng, ctx, mk, p, k, name, argv, C)
    if k in '23':
        ctx.count('wos_written')
        w = direct(C, 'wos')
        outName(rng, ctx, p, name, '.txt', present, lambda n: {n + '.txt': ('wos', w)})
        present = set(listing()) | set(f for s in p.steps for f in s[2])
    elif k in '45':
        ctx.count('csv_written')
        w = direct(C, 'csv')
        outName(rng, ctx, p, name, '.csv', present, lambda n: {n + '.csv': ('csv', w)})
        present = set(listing()) | set(f for s in p.steps for f in s[2])
    if k in '135':
        g = network(rng, ctx, p, C)
        g = thresholds(rng, ctx, p, g)
        output(rng, ctx, p, g, name, present)
    run(rng, ctx, p, argv, debug, k)


def run(rng, ctx, p, argv, debug, k):
    before = listing()
    steps = p.steps
    cut = None
    r = rng.random()
    if r < 0.08:
        cut = (rng.randrange(len(steps)), KeyboardInterrupt)
    elif r < 0.12:
        cut = (rng.randrange(len(steps)), EOFError)
    elif r < 0.18:
        ms = [i for i, s in enumerate(steps) if s[1]]
        cut = (rng.choice(ms), 'q')
    consoles = p.console
    if cut:
        consoles = sum(1 for s in steps[:cut[0]] if s[0] == 'i')
        steps = steps[:cut[0]] + [(cut[1], True, {})]
    want = {}
    for s in steps:
        want.update(s[2])
    user = User([s[0] for s in steps])
    import metaknowledge as mk
    quiet = '-q' in argv or '--quiet' in argv
    if quiet:
        mk.VERBOSE_MODE = True
        ctx.count('quiet')
    end, opened = session(argv, user)
    ctx.check(not mk.VERBOSE_MODE, 'not-quiet', lambda: '{}: progress is shown'.format(argv))
    mk.VERBOSE_MODE = False
    label = '{} {!r}'.format(' '.join(a for a in argv[1:] if '/' not in a), [s[0] for s in steps])
    if cut is None:
        exp = ('returned', 1)
    elif cut[1] is KeyboardInterrupt:
        ctx.count('interrupted')
        exp = ('returned', 0)
    elif cut[1] is EOFError:
        ctx.count('ended')
        exp = ('raised', 'EOFError', '') if debug else ('returned', 'EOFError', '')
    else:
        ctx.count('quit')
        exp = ('raised', 'SystemExit', '')
    ctx.eq(end, exp, 'end', label)
    ctx.eq(len(user.answers), 0, 'not-asked', label)
    ctx.eq(opened, consoles, 'console', label)
    for i, shown in enumerate(user.shown[:len(p.steps)]):
        lines = shown.splitlines()
        if p.steps[i][1]:
            ctx.count('menus')
            named = {m.group(1) for m in (re.match(r'(\S+?)\) *\S', l) for l in lines) if m}
            ctx.check(set(p.steps[i][1]) | {'i', 'q'} <= named, 'menu-choices', lambda: '{}: the menu before answer {} names {}, its choices are {}'.format(label, i, sorted(named), p.steps[i][1]))
        if i in p.tells:
            ctx.count('told')
            ctx.check(re.search('.*'.join(r'\b{}\b'.format(n) for n in p.tells[i]), ' '.join(l for l in lines if not re.match(r'\S+?\) ', l))), 'told', lambda: '{}: before answer {} is shown {!r}, the numbers are {}'.format(label, i, shown[:300], p.tells[i]))
    compare(ctx, before, want, label)
    if want:
        ctx.sig(k, tuple(argv[1:-1]), tuple(str(s[0]) for s in steps if not os.sep in str(s[0])))
        ctx.sample({'answers': [str(s[0]) for s in steps][:20], 'files': sorted(want)})


# ---- the journals of the citations -------------------------------------------------------
KNOWN = standins.JOURNALS


def journals(rng, ctx, mk, p, k, name, argv, C):
    """In a process of its own, because the journals are read once in a process"""
    from mkmon.checks.p33 import CITE
    cites = [c for R in C for c in R.get('citations', [])]
    fields = [getattr(c, 'journal', None) for c in cites]
    before = listing()
    if k == '6':
        ctx.count('cites_written')
        only = rng.random() < 0.5
        while rng.random() < 0.15:
            p.say(rng.choice(['journals', 'ja']))
        p.say(rng.choice(['y', 'Y', '']) if only else rng.choice(['n', 'N']))
        ctx.count('only_journals', int(only))
        w = sorted({str(c) for c, j in zip(cites, fields) if not only or j in KNOWN})
        if any('\r' in x or len(x.splitlines()) > 1 for x in w):
            raise Bad()
        outName(rng, ctx, p, name, '.csv', set(before), lambda n: {n + '.csv': ('cites', w)})
        res = forked(lambda: dict(zip(('end', 'opened', 'left', 'asked'), flat(*sessionIn(None, argv, [s[0] for s in p.steps])))))
        want = {}
        for s in p.steps:
            want.update(s[2])
        label = 'citations {!r}'.format([s[0] for s in p.steps])
        if 'error' in res:
            return ctx.fail('failed', res['error'])
        ctx.eq(tuple(res['end']), ('returned', 1), 'end', label)
        ctx.eq(res['left'], 0, 'not-asked', label)
        compare(ctx, before, want, label)
        ctx.sig(k, tuple(argv[1:-1]), only, len(w))
        return
    db = rng.choice(['', '', 'mine', 'other db'])
    ctx.count('own_database', int(db != ''))
    dbName = db or 'manualj9Abbreviations'
    d = ctx.newdir('db')
    mark = 'MARK {}'.format(rng.random())
    with dbm.dumb.open(os.path.join(d, 'j9Abbreviations'), 'c') as h:
        for a, v in dict(KNOWN, MARK=[mark]).items():
            h[a] = '|'.join(v)
    known = dict(KNOWN)
    unknown = sorted({j for j in fields if j and j not in KNOWN})
    ctx.count('no_journal', sum(1 for j in fields if not j))
    manual = {}
    if unknown and rng.random() < 0.4:
        for j in rng.sample(unknown, rng.randint(1, len(unknown))):
            manual[j] = rng.choice([j, 'JOURNAL OF ' + j, ''])
        with dbm.dumb.open(os.path.join(d, dbName), 'c') as h:
            for a, v in manual.items():
                h[a] = v
        ctx.count('journals_known')
    ask = [j for j in unknown if j not in manual]
    decide = {j: rng.random() < 0.5 for j in ask}
    silly = rng.random() < 0.2
    seen = []
    wrong = []

    def answer(prompt):
        # the longest journal that the question names last
        hits = [j for j in ask if j in prompt]
        if not hits:
            wrong.append(prompt)
            return 'n'
        best = max(hits, key=lambda j: (prompt.rfind(j) + len(j), len(j)))
        seen.append(best)
        if silly and len(seen) % 3 == 1 and (len(seen) < 2 or seen[-2] != best):
            return 'what?'
        return 'y' if decide[best] else 'n'

    stop = rng.random() < 0.15 and len(ask) > 1
    limit = rng.randint(1, len(ask) - 1) if stop else None
    done = []

    def limited(prompt):
        if limit is not None and len(done) >= limit:
            raise KeyboardInterrupt()
        r = answer(prompt)
        if r in 'yn':
            done.append(seen[-1] if seen else None)
        return r

    p.say(db)
    label = 'journals db={!r} {!r}'.format(db, decide)

    def child():
        out = flat(*sessionIn((d, mark), argv, [s[0] for s in p.steps] + [limited]))
        return {'end': out[0], 'left': out[2], 'done': done, 'wrong': wrong}
    res = forked(child)
    if 'error' in res:
        return ctx.fail('failed', res['error'])
    if res['end'] == ['elsewhere']:
        ctx.count('database_elsewhere')
        return
    ctx.eq(tuple(res['end']), ('returned', 0 if stop else 1), 'end', label)
    ctx.eq(res['wrong'], [], 'asked-about-known', label)
    if stop:
        ctx.check(len(res['done']) == limit and len(set(res['done'])) == limit, 'asked-twice', label)
        ctx.count('interrupted')
    else:
        ctx.eq(sorted(res['done']), ask, 'journals-asked', label)
    want = dict(manual)
    for j in res['done']:
        want[j] = j if decide[j] else ''
        ctx.count('journals_added' if decide[j] else 'journals_excluded')
    stems = {f.rsplit('.', 1)[0] for f in os.listdir(d)}
    ctx.eq(sorted(stems), sorted({'j9Abbreviations'} | ({dbName} if want else set())), 'databases', label)
    if want:
        with dbm.dumb.open(os.path.join(d, dbName), 'r') as h:
            got = {a.decode(): h[a].decode() for a in h.keys()}
        ctx.eq(got, want, 'database', label)
        ctx.sig(k, len(ask), len(manual), db, stop, tuple(decide.values()))
    compare(ctx, before, {}, label)


def flat(r, user):
    return [list(r[0]), r[1], len([a for a in user.answers if not callable(a)]), user.asked]


def sessionIn(db, argv, answers):
    from metaknowledge.journalAbbreviations import backend
    user = User(answers)
    if db is not None:
        backend.__file__ = os.path.join(db[0], 'backend.py')
        if list(backend.getj9dict(returnDict='WOS').get('MARK', [])) != [db[1]]:
            return (('elsewhere',), 0), user
    return session(argv, user), user


def forked(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = fn()
            except BaseException:
                import traceback
                res = {'error': traceback.format_exc()[-1500:]}
            with os.fdopen(w, 'w') as f:
                json.dump(res, f, default=str)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else {'error': 'the process gave no answer'}


def probeMaximum(rng, ctx):
    """Removing what lies above a bound"""
    import networkx as nx
    from metaknowledge.bin import metaknowledgeCLI as cli
    old = builtins.input, sys.stdout
    sys.stdout = io.StringIO()
    try:
        g = nx.Graph()
        g.add_edge('a', 'b', weight=1)
        g.add_edge('b', 'c', weight=5)
        builtins.input = User(['4', '3', '0'])
        h = cli.getThresholds(None, g.copy())
        builtins.input = User(['6', '1', '0'])
        i = cli.getThresholds(None, g.copy())
    finally:
        builtins.input, sys.stdout = old
    above = {frozenset(e) for e in h.edges()}, set(i)
    if above != ({frozenset('ab')}, {'a', 'c'}):
        known = above == ({frozenset('bc')}, {'a', 'b', 'c'})
        ctx.fail('cli-maximum' if known else 'cli-maximum-other', 'edges left by a maximum weight of 3: {}; nodes left by a maximum degree of 1: {}'.format(sorted(map(sorted, above[0])), sorted(above[1])))


PROBES = {'cli-maximum': probeMaximum}
