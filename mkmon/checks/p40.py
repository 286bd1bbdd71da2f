"""What is read and written does not depend on the machine it is read and written on."""
import csv
import io
import json
import os
import sys
import warnings
from mkmon import citenet as cn, faults, gen, graphs, queries as q, rc, standins
from mkmon.checks import p27, p34, p35

ID = 'P40'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 20000, 250000
STANDINS = True
RULE = ('Random record and grant files and directories are read, collections and graphs are written in nine ways and read back, questions are asked, notebooks are made, sessions at the command line are held and the list of names is loaded, '
        'once on this machine and once where open() has another default encoding (cp1252, ASCII, latin-1, cp932, UTF-16) and line end, folders are listed in another order and another time zone is set; '
        'answers and the meaning of files (rows of tables, lines of texts) are compared. Non-trivial: something outside ASCII, or the line end or the order of files, was at stake.')
ASSUMPTIONS = ['Another machine is what open(), os.listdir() and the time zone show of it; its file names and its own Python are not tried.', 'Files that are texts may end lines as their machine does.']
REQUIRED = ['read', 'session_files', 'graph_session', 'written', 'questions', 'notebooks', 'sessions', 'names', 'outside_ascii', 'other_encoding', 'crlf', 'cp1252', 'ascii', 'cp932', 'utf-16', 'carried', 'tables', 'texts', 'mixed_file'] + ['a_' + a for a in p35.ACTIONS]
TABLES = ('writeCSV', 'split_csv', 'forNLP', 'forBurst', 'rankedSeries', 'timeSeries', 'rpys', 'writeGraph')
ZONES = ['UTC', 'EST5EDT', 'Asia/Tokyo', 'NZST-12']


def host(rng, ctx):
    enc = rng.choice(['cp1252', 'cp1252', 'ascii', 'latin-1', 'cp932', 'utf-16', 'utf-8'])
    sep = rng.choice(['\n', '\r\n', '\r\n'])
    ctx.count(enc)
    ctx.count('other_encoding', int(enc != 'utf-8'))
    ctx.count('crlf', int(sep != '\n'))
    return faults.Host(rng, enc, sep, rng.choice(ZONES))


def tell(h):
    return 'with default encoding {}, line end {!r}, zone {}'.format(h.encoding, h.linesep, h.zone)


def meaning(name, data, table):
    """What a file says: the rows of a table, in any order below the first, or the lines of a text"""
    try:
        text = data.decode('latin-1' if name == 'latin' else 'utf-8')
    except UnicodeDecodeError:
        return ('not utf-8', data)
    if name.endswith('.ipynb'):
        return json.loads(text)
    if table:
        rows = list(csv.reader(io.StringIO(text, newline='')))
        # the order of the columns may be any; here it is the same collection so only the rows are sorted
        return rows[:1], sorted(rows[1:])
    return sorted(text.replace('\r\n', '\n').split('\n'))


def meanings(files, table, latin=False):
    return {k: meaning('latin' if latin else k, v, table) for k, v in files.items()}


def clear(d):
    for b, _, fs in os.walk(d):
        for f in fs:
            os.remove(os.path.join(b, f))


def case(rng, ctx):
    import metaknowledge as mk
    warnings.simplefilter('ignore')
    h = host(rng, ctx)
    k = rng.random()
    if k < 0.3:
        reading(rng, ctx, mk, h)
    elif k < 0.6:
        writing(rng, ctx, mk, h)
    elif k < 0.75:
        question(rng, ctx, mk, h)
    elif k < 0.85:
        notebook(rng, ctx, h)
    elif k < 0.95:
        cli(rng, ctx, mk, h)
    else:
        names(rng, ctx, h)


def note(rng, ctx, h, what, data):
    out = any(b > 127 for b in data)
    ctx.count('outside_ascii', int(out))
    if out or h.linesep != '\n':
        ctx.sig(what, h.encoding, h.linesep, data)


def reading(rng, ctx, mk, h):
    ctx.count('read')
    what, fn, d = p35.readers(rng, ctx, mk)
    ctx.count('a_' + what)
    kind, want = p35.attempt(fn)
    with h:
        kind2, got = p35.attempt(fn)
    ctx.eq((kind2, str(got) if kind2 != 'ok' else got), (kind, str(want) if kind != 'ok' else want), 'read', lambda: '{} {}'.format(what, tell(h)))
    note(rng, ctx, h, what, b''.join(v for k, v in sorted(p35.listing(d).items()) if 'DirCache' not in k))
    ctx.sample({'read': what, 'machine': tell(h)})


def writing(rng, ctx, mk, h):
    ctx.count('written')
    what, fn, d, state = p35.writers(rng, ctx, mk)
    ctx.count('a_' + what)
    before = state()
    kind, want = p35.attempt(fn)
    home = p35.listing(d)
    clear(d)
    with h:
        kind2, got = p35.attempt(fn)
    away = p35.listing(d)
    ctx.eq((kind2, str(got)), (kind, str(want)), 'write-answer', lambda: '{} {}'.format(what, tell(h)))
    table = what in TABLES
    latin = what == 'writeFile' and 'MedlineRecord' in before and not ('WOSRecord' in before or 'ScopusRecord' in before)
    if what == 'writeFile':
        ctx.count('mixed_file', int(sum(t in before for t in ('MedlineRecord', 'WOSRecord', 'ScopusRecord')) > 1))
        ctx.eq(kind, 'ok', 'write-refused', lambda: str(want))
    ctx.count('tables' if table else 'texts')
    ctx.eq(meanings(away, table, latin), meanings(home, table, latin), 'write', lambda: '{} {}'.format(what, tell(h)))
    ctx.eq(state(), before, 'changed')
    note(rng, ctx, h, what, b''.join(v for k, v in sorted(home.items())))
    if what == 'writeGraph' and any('_edgeList' in f for f in away):
        # a graph written there is read here, and the other way round
        ctx.count('carried')
        e = [f for f in away if '_edgeList' in f][0]
        n = [f for f in away if '_nodeAttributes' in f][0]
        rd = lambda: repr(q.canon(mk.readGraph(os.path.join(d, e), os.path.join(d, n), directed=True)))
        a = rd()
        clear(d)
        for k, v in home.items():
            ctx.write(os.path.join(d, k), v)
        b = rd()
        with h:
            c = rd()
        ctx.eq((a, c), (b, b), 'carried', lambda: tell(h))
    elif what == 'writeFile':
        ctx.count('carried')
        f = list(away)[0]
        rd = lambda: {k: v[:2] for k, v in p35.snap(mk.RecordCollection(os.path.join(d, f)))['records'].items()}
        try:
            a = rd()
        except mk.mkException:
            # not every kind of collection can be read back, an empty one for example
            a = None
        clear(d)
        ctx.write(os.path.join(d, f), home[f])
        try:
            with h:
                c = rd()
        except mk.mkException:
            c = None
        ctx.eq(a, c, 'carried-records', lambda: tell(h))
    ctx.sample({'written': what, 'machine': tell(h)})


def question(rng, ctx, mk, h):
    ctx.count('questions')
    texts, kind = p27.records(rng, ctx)
    texts2 = rng.sample(texts, rng.randint(0, len(texts)))
    h.linesep = '\n'    # what the questions write is compared as it is
    name, fn, args = q.collectionQuery(rng, rc.keysFor(rng, kind))
    make = lambda: (p27.build(mk, texts, [], 'one'), p27.build(mk, texts2, [], 'two'))
    files = os.listdir('.')
    want = p27.answer(fn, *make())
    p27.tidy(files, want)
    with h:
        got = p27.answer(fn, *make())
    p27.tidy(files, got)
    ctx.eq(got, want, 'answer', lambda: '{} {}'.format(name, tell(h)))
    ctx.sig(name, h.encoding, repr(texts))


def notebook(rng, ctx, h):
    ctx.count('notebooks')
    from metaknowledge.bin import metaknowledgeMdToNb as md
    from mkmon.checks import p39
    ls = p39.lines(rng, _Quiet())
    text = '\n'.join(ls) + '\n'
    d = ctx.newdir('md')
    p = os.path.join(d, 'a.md')
    ctx.write(p, text)
    old = sys.argv
    sys.argv = ['metaknowledge-mdToNb', p]
    out = []
    try:
        for m in (None, h):
            if m is None:
                md.mkMdToNb()
            else:
                with m:
                    try:
                        md.mkMdToNb()
                    except UnicodeError as e:
                        ctx.fail('notebook', '{}: {!r}'.format(tell(h), e))
            data = ctx.read(p[:-2] + 'ipynb')
            try:
                out.append(json.loads(data.decode('utf-8')))
            except ValueError as e:
                out.append('no notebook: {!r} {!r}'.format(e, data[:500]))
            os.remove(p[:-2] + 'ipynb')
    finally:
        sys.argv = old
    ctx.eq(out[1], out[0], 'notebook', lambda: tell(h))
    ctx.eq(ctx.read(p), text.encode('utf-8'), 'source-changed')
    note(rng, ctx, h, 'notebook', text.encode('utf-8'))


class _Quiet:
    def count(self, *a):
        pass


def cli(rng, ctx, mk, h):
    ctx.count('sessions')
    d = ctx.newdir('cli')
    recs = cn.records(rng, ctx)[0]
    if not recs:
        return
    for r in recs:
        if 'TI' in r.tags and rng.random() < 0.7:
            r.tags['TI'] = [r.tags['TI'][0] + ' 漢字 naïve']
    data = gen.wosFile(recs).encode('utf-8')
    k = rng.choice('24661')
    answers = [k]
    if k == '6':
        answers += ['n']
    if k == '1':
        answers += ['1', rng.choice(['TI', 'AU']), '0', rng.choice('1234')]
    answers += ['out']
    outs = []
    was = mk.VERBOSE_MODE
    for m in (None, h):
        w = ctx.newdir('cliwork')
        ctx.write(os.path.join(w, 'in.isi'), data)
        there = os.getcwd()
        os.chdir(w)
        try:
            user = p34.User(answers)
            if m is None:
                end = p34.session(['metaknowledge', '-q', 'in.isi'], user)
            else:
                with m:
                    end = p34.session(['metaknowledge', '-q', 'in.isi'], user)
        finally:
            os.chdir(there)
            mk.VERBOSE_MODE = was
        files = p35.listing(w)
        files.pop('in.isi')
        outs.append((end, {f: meaning(f, v, k == '4') if not f.endswith('.csv') or k != '1' else meaning(f, v, True) for f, v in files.items()}))
    ctx.count('session_files', len(outs[0][1]))
    ctx.count('graph_session', int(k == '1' and bool(outs[0][1])))
    ctx.eq(outs[1], outs[0], 'session', lambda: '{} answers {}'.format(tell(h), answers))
    note(rng, ctx, h, 'session ' + k, data)


def names(rng, ctx, h):
    ctx.count('names')
    import importlib
    ng = importlib.import_module('metaknowledge.genders.nameGender')
    ask = ['X, ' + n for n in standins.NAMES] + ['Y, Nobody']
    old = ng.mappingDict
    try:
        ng.mappingDict = None
        want = [ng.nameStringGender(n) for n in ask]
        ng.mappingDict = None
        with h:
            try:
                got = [ng.nameStringGender(n) for n in ask]
            except UnicodeError as e:
                got = repr(e)
    finally:
        ng.mappingDict = old
    ctx.eq(got, want, 'names', lambda: tell(h))
    ctx.sig('names', h.encoding, h.linesep)
