"""Showing progress changes nothing: same answers, same errors, nothing left running."""
import copy
import io
import os
import re
import sys
import threading
import time
import warnings
from mkmon import citenet as cn, dirs, gen, graphs, grants as gr, queries as q, rc

ID = 'P29'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 5000, 80000
RULE = ('Random reads (files, damaged files, directories, caches, iterables that fail half way, wrong things), questions to collections, graphs and grants, run once without and once with progress shown while '
        'the thread showing it is made to wake up after random short times and threads are switched after random short times; answers, errors, threads left, errors in threads and the shown text are compared. '
        'Non-trivial: at least one bar was drawn.')
ASSUMPTIONS = ['The waiting of the thread is shortened by replacing the sleeping function for the whole process.', 'How often a bar is redrawn is open; texts on it may be shortened in the middle; terminals have 40 columns or more.']
REQUIRED = ['reads', 'questions', 'graph_questions', 'grant_questions', 'bars', 'redrawn', 'raised', 'quiet_drew_nothing', 'failing_iterable', 'direct_bars', 'damaged', 'cached', 'restored', 'percentages', 'drawn_bars', 'awaited']
REAL_SLEEP = time.sleep


class Shown:
    """Everything written to the standard output while progress is shown, and what became of the threads"""

    def __init__(self, ctx, rng, verbose):
        self.ctx, self.rng, self.verbose = ctx, rng, verbose

    def __enter__(self):
        import metaknowledge as mk
        self.old = mk.VERBOSE_MODE
        mk.VERBOSE_MODE = self.verbose
        self.path = self.ctx.path('shown')
        self.f = open(self.path, 'wb')
        sys.__stdout__.flush()
        self.saved = os.dup(1)
        os.dup2(self.f.fileno(), 1)
        self.before = set(threading.enumerate())
        self.errors = []
        self.hook = threading.excepthook
        threading.excepthook = lambda a: self.errors.append(repr(a.exc_value))
        self.buf = io.StringIO()
        self.out, sys.stdout = sys.stdout, self.buf
        self.sw = sys.getswitchinterval()
        sys.setswitchinterval(self.rng.choice([5e-3, 1e-4, 1e-6]))
        pause = self.rng.choice([2e-4, 1e-3, 3e-3])
        time.sleep = lambda s: REAL_SLEEP(min(s, pause))
        # now and then the work waits for the bar to be drawn, so that what is told to it is seen
        from metaknowledge import progressBar as pb
        self.cls = getattr(pb, '_ProgressBar', None)
        self.update = getattr(self.cls, 'updateVal', None)
        if self.verbose and self.update is not None:
            def slow(bar, *a, **k):
                r = self.update(bar, *a, **k)
                if self.rng.random() < 0.1:
                    REAL_SLEEP(2 * pause)
                return r
            self.cls.updateVal = slow
        return self

    def __exit__(self, *a):
        import metaknowledge as mk
        time.sleep = REAL_SLEEP
        if self.verbose and self.update is not None:
            self.cls.updateVal = self.update
        sys.setswitchinterval(self.sw)
        sys.stdout = self.out
        threading.excepthook = self.hook
        # a thread that was told to stop needs a moment to be gone
        self.left = [t for t in threading.enumerate() if t not in self.before]
        sys.__stdout__.flush()
        os.dup2(self.saved, 1)
        os.close(self.saved)
        self.f.close()
        with open(self.path, 'rb') as f:
            self.text = f.read().decode('utf-8', 'replace') + self.buf.getvalue()
        os.remove(self.path)
        mk.VERBOSE_MODE = self.old
        for t in self.left:
            # so that what is left over spoils nothing that comes after
            bar = (getattr(t, '_kwargs', None) or {}).get('self')
            if bar is not None:
                bar.finished = True
            t.join(0.5)


def answer(fn):
    try:
        return ('answer', repr(q.canon(fn())))
    except Exception as e:
        return ('raised', type(e).__name__, str(e)[:300])


def both(rng, ctx, name, make):
    """make() gives a fresh question; it is put quietly and with progress"""
    quiet, loud = make(), make()
    files = set(os.listdir('.'))

    def tidy():
        for f in set(os.listdir('.')) - files:
            if os.path.isfile(f):
                os.remove(f)

    with Shown(ctx, rng, False) as a:
        want = answer(quiet)
    tidy()
    with Shown(ctx, rng, True) as b:
        got = answer(loud)
    tidy()
    ctx.eq(got, want, 'answer-differs', name)
    for s, how in ((a, 'quietly'), (b, 'with progress')):
        ctx.eq(s.left, [], 'thread-left', '{} {}'.format(name, how))
        ctx.eq(s.errors, [], 'thread-error', '{} {}'.format(name, how))
    import metaknowledge as mk
    ctx.check(mk.VERBOSE_MODE is False, 'mode-changed', name)
    ctx.count('restored')
    ctx.check(a.text == '', 'quiet-shows', lambda: '{}: {!r}'.format(name, a.text[:200]))
    ctx.count('quiet_drew_nothing')
    if got[0] == 'raised':
        ctx.count('raised')
    if b.text:
        ctx.count('bars')
        n = b.text.count('\r')
        ctx.count('redrawn', int(n > 2))
        for seg in re.split('[\r\n]', b.text):
            m = re.search(r'\] *(-?\d+\.\d)%$', seg)
            if m:
                ctx.count('percentages')
                ctx.check(0 <= float(m.group(1)) <= 100, 'percentage', lambda: '{}: {!r}'.format(name, seg))
        ctx.check(b.text.endswith('\n'), 'line-not-ended', lambda: '{}: {!r}'.format(name, b.text[-200:]))
        ctx.sig(name, n, len(b.text.split('\n')), got[0], tuple(re.sub(r'\[? *[\d.]+s\]?', '', x).strip() for x in b.text.split('\r')))
        ctx.sample({'question': name, 'redrawn': n, 'last': b.text.strip().split('\r')[-1][:120]})


def texts(rng, ctx):
    if rng.random() < 0.5:
        return [('WOS', r.text()) for r in cn.records(rng, ctx)[0]], 'wos'
    recs, _, kind = rc.collection(rng, ctx)
    return [(r.kind, r.text()) for r in recs], kind


def made(mk, ts, name):
    return mk.RecordCollection([{'WOS': mk.WOSRecord, 'Medline': mk.MedlineRecord, 'Scopus': mk.ScopusRecord}[k](t) for k, t in ts], name=name, quietStart=True)


def reads(rng, ctx, mk):
    ctx.count('reads')
    m = dirs.Maker(rng)
    k = rng.choice(['file', 'directory', 'cached', 'iterable', 'failing', 'wrong', 'grants', 'missing'])
    if k == 'failing':
        ctx.count('failing_iterable')
        ts = texts(rng, ctx)[0]

        def fails():
            yield from made(mk, ts, 'x')
            raise ValueError('half way')
        return both(rng, ctx, 'read failing', lambda: lambda: mk.RecordCollection(fails()))
    if k == 'iterable':
        ts = texts(rng, ctx)[0]
        return both(rng, ctx, 'read iterable', lambda: lambda: mk.RecordCollection(list(made(mk, ts, 'x')), name='y'))
    if k == 'wrong':
        w = rng.choice([5, [1, 2], object])
        return both(rng, ctx, 'read wrong', lambda: lambda: rng.choice([mk.RecordCollection, mk.GrantCollection])(w) if False else mk.RecordCollection(w))
    if k == 'missing':
        return both(rng, ctx, 'read missing', lambda: lambda: mk.RecordCollection('no such file'))
    if k == 'grants':
        d = ctx.newdir('g')
        for i in range(rng.randint(0, 3)):
            n, data, _ = gr.anyFile(rng, i)
            ctx.write(os.path.join(d, n), data)
        ext = rng.choice(['', '.csv'])
        return both(rng, ctx, 'read grants', lambda: lambda: mk.GrantCollection(d, extension=ext, cached=False))
    d = ctx.newdir('d')
    for i in range(rng.randint(1, 4)):
        kind, data, recs, dm = m.file(damaged=rng.random() < 0.3)
        ctx.count('damaged', int(bool(dm)))
        ctx.write(os.path.join(d, 'f{}{}'.format(i, rng.choice(dirs.EXT[kind]))), data)
    if k == 'file':
        p = os.path.join(d, sorted(os.listdir(d))[0])
        return both(rng, ctx, 'read file', lambda: lambda: (lambda C: (C, dirs.snapshot(C)))(mk.RecordCollection(p)))
    cached = k == 'cached'
    if cached:
        ctx.count('cached')
    return both(rng, ctx, 'read ' + k, lambda: lambda: (lambda C: (C, dirs.snapshot(C)))(mk.RecordCollection(d, cached=cached)))


def questions(rng, ctx, mk):
    ctx.count('questions')
    ts, kind = texts(rng, ctx)
    ts2 = rng.sample(ts, rng.randint(0, len(ts)))
    name, fn, _ = q.collectionQuery(rng, rc.keysFor(rng, kind))

    def make():
        C, D = made(mk, ts, 'one'), made(mk, ts2, 'two')
        return lambda: fn(C, D)
    both(rng, ctx, name, make)


def graphQuestions(rng, ctx, mk):
    ctx.count('graph_questions')
    g = graphs.graph(rng, hard=False)
    name, fn, _ = q.graphQuery(rng)
    h = type(g)()
    h.add_edge('a', 'b', weight=1)

    def make():
        c, d = copy.deepcopy(g), copy.deepcopy(h)
        return lambda: fn(c, d)
    both(rng, ctx, name, make)


def grantQuestions(rng, ctx, mk):
    ctx.count('grant_questions')
    gs = [{'Cle': str(i), 'Name-Nom': rng.choice(gr.NAMES), 'CoName-': '; '.join(rng.sample(gr.NAMES, 2)), 'Institution': rng.choice(gr.INSTS)} for i in range(rng.randint(0, 5))]
    inst = rng.random() < 0.5

    def make():
        GC = mk.GrantCollection([mk.NSERCGrant(g['Cle'], dict(g), 'f', 1) for g in gs], quietStart=True)
        return lambda: GC.networkCoInvestigatorInstitution() if inst else GC.networkCoInvestigator()
    both(rng, ctx, 'networkCoInvestigator', make)


class Terminal(io.StringIO):
    def fileno(self):
        return 1


def like(shown, text):
    """The text itself or, where it is too long, its beginning and end"""
    shown, text = shown.strip(), text.strip()
    if shown == text:
        return True
    a, dots, z = shown.partition('...')
    return bool(dots) and len(a) + len(z) < len(text) and text.startswith(a) and text.endswith(z) and min(len(a), len(z)) > 5


def bars(rng, ctx, mk):
    """The bar by itself"""
    from metaknowledge.progressBar import _ProgressBar
    ctx.count('direct_bars')
    out = Terminal()
    wide = rng.choice([None, 40, 41, 57, 80, 120, 121, 200])
    steps = [(rng.random() if rng.random() < 0.9 else rng.choice([0, 1, 0.999999])) for _ in range(rng.randint(0, 8))]
    msg = rng.choice(['done', 'x' * rng.randint(60, 100), 'Finished ' + 'reading ' * rng.randint(1, 30) + '.', 'naïve 漢字', ''])
    second = rng.random() < 0.2
    first = rng.choice(['start', 'y' * 100, 'Reading ' + 'from file ' * rng.randint(1, 25) + '!', ''])
    said = [first]
    size = os.get_terminal_size

    def columns(*a):
        if wide is None:
            raise OSError('no terminal')
        return os.terminal_size((wide, 24))
    end = rng.choice(['finish', 'leave', 'raise'])
    os.get_terminal_size = columns
    with Shown(ctx, rng, False) as s:
        try:
            with _ProgressBar(0, first, output=out, secondRow=second) as P:
                ctx.check(bool(P), 'bar-false', 'a bar that is shown is true')
                for v in steps:
                    said.append(rng.choice([None, 'step', 'z' * 120, 'a{}z'.format('-' * rng.randint(20, 200)), 5]))
                    P.updateVal(v, said[-1])
                    REAL_SLEEP(rng.choice([0, 0, 5e-4]))
                if steps and rng.random() < 0.3:
                    # what was set last is shown soon
                    ctx.count('awaited')
                    last, t0 = '{:.1%}'.format(steps[-1]), time.monotonic()
                    n0 = len(out.getvalue())
                    while last not in out.getvalue()[n0:] and time.monotonic() - t0 < 20:
                        REAL_SLEEP(1e-3)
                    ctx.check(last in out.getvalue()[n0:], 'bar-not-updated', lambda: '{!r} was not shown in 20 s: {!r}'.format(last, out.getvalue()[-200:]))
                if end == 'finish':
                    P.finish(msg)
                elif end == 'raise':
                    raise ValueError('x')
        except ValueError:
            pass
        finally:
            os.get_terminal_size = size
    ctx.eq(s.left, [], 'bar-thread-left', end)
    ctx.eq(s.errors, [], 'bar-thread-error', end)
    t = out.getvalue()
    ctx.check(t.endswith('\n'), 'bar-line-not-ended', lambda: '{} {!r}'.format(end, t[-100:]))
    W = wide or 80
    # what is on the lines of the terminal
    shown = [x for x in re.split('\x1b\\[F?|[\r\n]', t) if x]
    # (the last message may be drawn with a bar that was under way)
    said = [str(x) for x in said + [msg] * (end == 'finish') if x is not None]
    drawn = shown[:-1] if end == 'finish' else shown
    for x in shown:
        ctx.check(len(x) <= W, 'bar-too-wide', lambda: '{!r} is {} wide on {}'.format(x, len(x), W))
    can = {'{:.1%}'.format(v) for v in steps + [0]}
    for x in drawn:
        m = re.search(r'\] *(-?\d+\.\d%)$', x)
        bar = re.match(r'\[(=*)>? *\] *([\d.]+)%$', x)
        if bar:
            ctx.count('drawn_bars')
            # the number and the bar are of values set, maybe of two
            ctx.check(any(abs(len(bar.group(1)) - (W - 8) * v) <= 1.2 for v in steps + [0]), 'bar-length', lambda: repr(x))
        elif not second:
            text = re.sub(r'\[ *[\d.]+s\] *[\d.]+%$', '', x)
            ctx.check(bool(m) and any(like(text, a) for a in said), 'bar-text', lambda: '{!r} after {!r}'.format(x, said))
        if m:
            ctx.check(m.group(1) in can, 'bar-percentage', lambda: '{!r} of {!r}'.format(x, can))
    if end == 'finish' and not second:
        x = shown[-1]
        text = re.sub(r' *[\d.]+s$', '', x)
        ctx.check(text != x and (like(text, msg) if len(msg) >= W - 6 else text == msg.rstrip()), 'bar-message', lambda: '{!r} {!r}'.format(msg, x))
    n = len(t)
    REAL_SLEEP(0.001)
    ctx.eq(len(out.getvalue()), n, 'bar-writes-later')
    ctx.count('redrawn', int(t.count('\r') > 2))


def case(rng, ctx):
    import metaknowledge as mk
    warnings.simplefilter('ignore')
    rng.choice([reads, reads, questions, questions, questions, questions, graphQuestions, grantQuestions, bars])(rng, ctx, mk)
