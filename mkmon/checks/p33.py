"""The database of journals knows exactly what was put into it."""
import dbm.dumb
import json
import os
import shutil
import subprocess
import sys
import warnings
from mkmon import gen, standins

ID = 'P33'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 2500, 40000
STANDINS = True
RULE = ('Histories of 1-4 processes that add, exclude and name journals in the manual database (one by one, many at once, through citations, before and after citations were asked) and ask citations, lists of citations and '
        'the dictionaries after every step; every answer is compared with a model of the two databases. Non-trivial: at least two processes or three changes.')
ASSUMPTIONS = ['The downloaded database is a small stand-in for the published one, which cannot be downloaded here.',
               'The databases are read when a process first asks a citation; later changes have to go through citations to be seen by them in that process.']
REQUIRED = ['scopus_asked', 'unparsable_asked', 'full_name_first', 'processes', 'restarts', 'added', 'added_many', 'excluded', 'excluded_many', 'named', 'several_names', 'by_citation', 'inverted_by_citation', 'asked', 'journals', 'not_journals', 'excluded_journals', 'filtered', 'refused',
            'superseded', 're_added', 'no_journal', 'dict_both', 'dict_wos', 'dict_manual', 'changed_after_asking', 'foreign_letters', 'other_name', 'no_database']
POOL = ['NATURE', 'SCIENCE', 'CELL', 'LANCET', 'NEW J', 'Z ANGEW', 'J É', 'MY JOURNAL', 'A', 'OPT LETT', "J 'Q'", 'X, Y', 'X\\Y', 'ANN PHYS']
CITE = [p for p in POOL if ',' not in p]


def cit(mk, j, style='wos'):
    if style == 'scopus':
        return mk.Citation('Unknown things' if j is None else 'Smith, J., A title (1999) {}, 12, pp. 3-4'.format(j), scopusMode=True)
    return mk.Citation('Smith J, 1999' if j is None else 'Smith J, 1999, {}, V1, P2'.format(j))


def play(dir, steps, mark=None):
    """In a process of its own: the answers to every step"""
    import metaknowledge as mk
    from metaknowledge.journalAbbreviations import backend
    if dir is not None:
        backend.__file__ = os.path.join(dir, 'backend.py')
        if list(backend.getj9dict(returnDict='WOS').get('MARK', [])) != mark:
            return 'elsewhere'
    out = []
    for s in steps:
        try:
            if s[0] == 'add':
                backend.addToDB(s[1], *s[2:])
                out.append(None)
            elif s[0] == 'exclude':
                backend.excludeFromDB(s[1], *s[2:])
                out.append(None)
            elif s[0] == 'cite-add':
                c = cit(mk, s[1])
                out.append(c.addToDB(**s[2]))
            elif s[0] == 'ask':
                c = cit(mk, s[1], s[2])
                full = c.FullJournalName() if s[3] else None
                out.append([getattr(c, 'journal', None), bool(c.isJournal()), bool(c.isJournal(checkIfExcluded=True)), full if s[3] else c.FullJournalName()])
            elif s[0] == 'filter':
                out.append([c.journal for c in mk.filterNonJournals([cit(mk, j) for j in s[1]], **s[2])])
            elif s[0] == 'dict':
                out.append(mk.journalAbbreviations.getj9dict(**s[1]))
        except (TypeError, KeyError, mk.mkExceptions.JournalDataBaseError) as e:
            out.append('refused')
    return out


def apart(ctx, dir, steps):
    """The same in an interpreter with a package of its own"""
    import metaknowledge as mk
    lib = os.path.join(ctx.tmp, 'lib')
    if not os.path.isdir(lib):
        shutil.copytree(os.path.dirname(mk.__file__), os.path.join(lib, 'metaknowledge'))
        for f in os.listdir(dir):
            shutil.copy(os.path.join(dir, f), os.path.join(lib, 'metaknowledge', 'journalAbbreviations', f))
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    code = 'import sys, json; sys.path[:0] = [{!r}, {!r}]; from mkmon.checks import p33; print(json.dumps(p33.play(None, json.loads(sys.stdin.read()))))'.format(lib, here)
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], input=json.dumps(steps), capture_output=True, text=True, encoding='utf-8', env=dict(os.environ, PYTHONIOENCODING='utf-8'))
    if r.returncode:
        return {'error': r.stderr[-1500:]}
    return {'ok': json.loads(r.stdout)}


def process(ctx, dir, steps, mark):
    res = forked(dir, steps, mark)
    if res.get('ok') == 'elsewhere':
        ctx.count('own_interpreter')
        return apart(ctx, dir, steps)
    return res


def forked(dir, steps, mark):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = {'ok': play(dir, steps, mark)}
            except BaseException as e:
                import traceback
                res = {'error': traceback.format_exc()[-1500:]}
            with os.fdopen(w, 'w') as f:
                json.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data)


def case(rng, ctx):
    warnings.simplefilter('ignore')
    d = ctx.newdir('db')
    wos = dict(standins.JOURNALS)
    wos['MARK'] = ['MARK {}'.format(rng.random())]
    with dbm.dumb.open(os.path.join(d, 'j9Abbreviations'), 'c') as db:
        for k, v in wos.items():
            db[k] = '|'.join(v)
    manual = None
    aside = {}      # databases of other names
    changes = 0
    nproc = rng.choice([1, 1, 2, 3, 4])
    for proc in range(nproc):
        ctx.count('processes')
        ctx.count('restarts', int(proc > 0))
        steps, want = [], []
        loaded = None

        def both():
            out = dict(wos)
            out.update(manual or {})
            return {k: list(v) for k, v in out.items()}

        for _ in range(rng.randint(1, 10)):
            kinds = ['ask', 'ask', 'ask', 'filter', 'cite-add', 'dict']
            if loaded is None:
                kinds += ['add', 'add', 'exclude', 'exclude']
            kind = rng.choice(kinds)
            if rng.random() < 0.15:
                # a manual database of another name stands by itself
                n = rng.choice(['mine', 'my journals', 'j9', 'manualj9'])
                ctx.count('other_name')
                r = rng.random()
                if r < 0.35:
                    which = rng.choice(['both', 'manual', 'WOS'])
                    steps.append(('dict', {'manualDB': n, 'returnDict': which} if which != 'both' or rng.random() < 0.5 else {'manualDB': n}))
                    if which == 'manual' and n not in aside:
                        want.append('refused')
                        ctx.count('no_database')
                        continue
                    out = {} if which == 'manual' else dict(wos)
                    if which != 'WOS':
                        out.update(aside.get(n, {}))
                    want.append({k: list(v) for k, v in out.items()})
                    continue
                db = aside.setdefault(n, {})
                if r < 0.6:
                    new = {j: rng.choice(['Some Name', 'One|Two', j]) for j in rng.sample(POOL, rng.randint(1, 3))}
                    steps.append(('add', new, n))
                    db.update({k: v.split('|') for k, v in new.items()})
                elif r < 0.8 or loaded is not None:
                    js = rng.sample(POOL, rng.randint(1, 3))
                    steps.append(('exclude', js, n))
                    db.update({j: [''] for j in js})
                else:
                    j = rng.choice(CITE)
                    steps.append(('cite-add', j, {'manualDB': n}))
                    db[j] = [j]
                want.append(None)
                continue
            if kind == 'add':
                manual = dict(manual or {})
                r = rng.random()
                if r < 0.4:
                    j = rng.choice(POOL)
                    steps.append(('add', j))
                    ctx.count('re_added', int(manual.get(j) == ['']))
                    manual[j] = [j] if '|' not in j else j.split('|')
                    ctx.count('added')
                elif r < 0.8:
                    new = {j: rng.choice(['Some Name', 'One|Two', 'One|Two|Three', 'Ünï', '', j]) for j in rng.sample(POOL, rng.randint(1, 4))}
                    steps.append(('add', new))
                    manual.update({k: v.split('|') for k, v in new.items()})
                    ctx.count('added_many')
                    ctx.count('several_names', int(any('|' in v for v in new.values())))
                elif r < 0.9:
                    steps.append(('add', None))
                else:
                    steps.append(('add', rng.choice([5, [1], {'A': 5}])))
                    ctx.count('refused')
                    want.append('refused')
                    # what a refused dictionary leaves is open
                    if isinstance(steps[-1][1], dict):
                        steps.pop()
                        want.pop()
                        steps.append(('add', 5))
                        want.append('refused')
                    continue
                want.append(None)
                changes += 1
            elif kind == 'exclude':
                manual = dict(manual or {})
                js = [rng.choice(POOL)] if rng.random() < 0.5 else rng.sample(POOL, rng.randint(1, 3))
                arg = js[0] if len(js) == 1 and rng.random() < 0.7 else rng.choice([list, tuple])(js)
                ctx.count('excluded' if isinstance(arg, str) else 'excluded_many')
                steps.append(('exclude', arg))
                for j in js:
                    manual[j] = ['']
                want.append(None)
                changes += 1
            elif kind == 'cite-add':
                j = rng.choice(CITE)
                if rng.random() < 0.05:
                    steps.append(('cite-add', None, {}))
                    want.append('refused')
                    # the manual database exists from now on
                    manual = dict(manual or {})
                    ctx.count('no_journal')
                    continue
                kw = {}
                name = j
                r = rng.random()
                if r < 0.3:
                    kw = {'invert': True}
                    name = ''
                    ctx.count('inverted_by_citation')
                elif r < 0.6:
                    name = rng.choice(['My Name', 'A|B', 'É'])
                    kw = {'manualName': name}
                    ctx.count('named')
                steps.append(('cite-add', j, kw))
                manual = dict(manual or {})
                ctx.count('re_added', int(manual.get(j) == [''] and name != ''))
                manual[j] = name.split('|')
                ctx.count('superseded', int(j in wos))
                if loaded is not None:
                    loaded[j] = name.split('|')
                    ctx.count('changed_after_asking')
                ctx.count('by_citation')
                want.append(None)
                changes += 1
            elif kind == 'ask':
                j = rng.choice(CITE + [None]) if rng.random() < 0.7 else rng.choice(list(standins.JOURNALS))
                if loaded is None:
                    loaded = both()
                steps.append(('ask', j, rng.choice(['wos', 'wos', 'scopus']), rng.random() < 0.4))
                ctx.count('scopus_asked', int(steps[-1][2] == 'scopus'))
                ctx.count('unparsable_asked', int(steps[-1][2] == 'scopus' and j is None))
                ctx.count('full_name_first', int(steps[-1][3]))
                ctx.count('asked')
                v = loaded.get(j) if j is not None else None
                isj = bool(v and v[0])
                ex = v is not None and v[0] == ''
                ctx.count('journals' if isj else 'excluded_journals' if ex else 'not_journals')
                ctx.count('foreign_letters', int(j == 'J É'))
                want.append([j, isj, ex, v[0] if isj else None])
            elif kind == 'filter':
                js = [rng.choice(CITE + list(standins.JOURNALS)) for _ in range(rng.randint(0, 5))]
                if loaded is None and js:
                    loaded = both()
                inv = rng.random() < 0.4
                steps.append(('filter', js, {'invert': True} if inv else {}))
                want.append([j for j in js if bool(loaded.get(j) and loaded[j][0]) != inv])
                ctx.count('filtered')
            else:
                which = rng.choice(['both', 'WOS', 'manual'])
                if which == 'manual' and manual is None:
                    steps.append(('dict', {'returnDict': which}))
                    want.append('refused')
                    ctx.count('no_database')
                    continue
                steps.append(('dict', {'returnDict': which} if which != 'both' or rng.random() < 0.5 else {}))
                ctx.count('dict_' + which.lower())
                want.append(both() if which == 'both' else {k: list(v) for k, v in (wos if which == 'WOS' else manual).items()})
        got = process(ctx, d, steps, wos['MARK'])
        if not ctx.check('ok' in got, 'raised', lambda: '{} in {}'.format(got['error'], steps)):
            return
        want = json.loads(json.dumps(want))
        for i, (g, w) in enumerate(zip(got['ok'], want)):
            if not ctx.eq(g, w, 'answer-' + steps[i][0], 'step {} of process {}: {}'.format(i, proc, steps[:i + 1])):
                return
    if nproc > 1 or changes > 2:
        ctx.sig(nproc, changes, repr(manual), repr(steps))
        ctx.sample({'processes': nproc, 'changes': changes, 'manual': manual})
