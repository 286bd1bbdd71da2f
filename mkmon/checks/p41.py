"""The lists the package downloads are used whole or not at all."""
import base64
import contextlib
import dbm.dumb
import io
import json
import os
import random
import shutil
import string
import subprocess
import sys
import urllib.error
import urllib.request
import urllib.response
import warnings
import zipfile
from email.message import Message
from mkmon import faults

ID = 'P41'
LEVEL = 'fault_enumeration'
QUICK_N, THOROUGH_N = 3000, 40000
RULE = ('Histories of 1-4 processes that download, update, use and rename the list of journals and the list of first names from a stand-in for their sites (27 pages, a zip file) whose pages change and share abbreviations, while '
        'connections are refused, reset, time out or end early at any request, pages and files are missing, empty, damaged or something else, the disk fails while names are written and an interrupt ends the first download; after every step the answer, the number of requests, the working '
        'directory and the error are compared with a model of the lists. Non-trivial: something was downloaded and asked.')
ASSUMPTIONS = ['The sites are stand-ins in the layout the package reads; what happens when the layout changes is only that it is reported.',
               'The order of the names of a journal is open; a page that is cut without its connection noticing cannot be told from a whole one.']
REQUIRED = ['updates', 'first_fetch', 'merged', 'shared_abbreviations', 'failed_requests', 'kind_refused', 'kind_404', 'kind_503', 'kind_reset', 'kind_short', 'kind_timeout', 'kind_login', 'kind_empty', 'kind_binary', 'kind_cutzip', 'kind_badcrc', 'kind_nomember',
            'raw_pages', 'raw_failed', 'other_database', 'manual_missing', 'damaged_index', 'names_us', 'names_uk', 'names_first', 'names_kept', 'extras', 'disk_failures', 'asked', 'genders', 'retried', 'interrupted', 'interrupted_writing', 'no_requests', 'processes']
LETTERS = ['0-9'] + list(string.ascii_uppercase)
ABBR = ['NATURE', 'CELL', 'J CHEM PHYS', 'ANN PHYS-NEW YORK', 'Z KRIST', 'ÄRZTE BL', 'A&A PRACT', "O'NEILL J", 'X', 'LANCET', '3 BIOTECH']
FIRST = ['Mary', 'wei', 'Élodie', 'JOHN', 'Anne-Marie', 'Xq', "D'arcy"]
PAGE_KINDS = ['refused', '404', '503', 'reset', 'short', 'timeout', 'login', 'empty', 'binary']
ZIP_KINDS = ['refused', '404', 'reset', 'short', 'timeout', 'login', 'empty', 'cutzip', 'badcrc', 'nomember']


# ---------------------------------------------------------------- the sites

class Breaking(io.BytesIO):
    """An answer whose connection ends before its end"""

    def __init__(self, data, kind):
        io.BytesIO.__init__(self, data)
        self.kind = kind

    def read(self, *a):
        import http.client
        if self.kind == 'short':
            raise http.client.IncompleteRead(io.BytesIO.read(self, 10), 1000)
        raise ConnectionResetError(104, 'Connection reset by peer') if self.kind == 'reset' else TimeoutError('The read operation timed out')

    readline = readinto = readlines = read1 = read


class Net(urllib.request.BaseHandler):
    handler_order = 50

    def __init__(self):
        self.pages, self.zip, self.fail, self.n, self.failed = {}, b'', None, 0, None

    def https_open(self, req):
        self.n += 1
        url = req.full_url
        code, body = 200, None
        fail = self.fail['kind'] if self.fail and self.n == self.fail['at'] else None
        if url.endswith('.zip'):
            data = self.zip
        else:
            k = url.rsplit('/', 1)[-1].replace('_abrvjt.html', '')
            if k not in self.pages:
                return self.respond(url, 404, io.BytesIO(b'<HTML>not found</HTML>'))
            data = self.pages[k].encode('utf-8')
        if fail:
            self.failed = fail
            if fail == 'refused':
                raise urllib.error.URLError(ConnectionRefusedError(111, 'Connection refused'))
            if fail in ('404', '503'):
                code, data = int(fail), b'<HTML>\n<BODY>\nno\n</BODY>\n</HTML>\n'
            elif fail in ('reset', 'short', 'timeout'):
                body = Breaking(data, fail)
            elif fail == 'login':
                data = b'<HTML>\n<BODY>\nPlease log in to the network\n</BODY>\n</HTML>\n'
            elif fail == 'empty':
                data = b''
            elif fail == 'binary':
                data = b'\xff\xfe\x00' * 40
            elif fail == 'cutzip':
                data = data[:len(data) // 2]
            elif fail == 'badcrc':
                data = data.replace(b'prob.gender', b'prob.xender')
        return self.respond(url, code, body if body is not None else io.BytesIO(data))

    http_open = https_open

    def respond(self, url, code, body):
        m = Message()
        m['Content-Type'] = 'text/html'
        r = urllib.response.addinfourl(body, m, url, code)
        r.msg = 'OK' if code == 200 else 'No'
        return r


def zipOf(us, uk, kind):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w', zipfile.ZIP_STORED) as z:
        z.writestr('globalnamedata-0.3/README.md', 'names')
        if kind != 'nomember':
            z.writestr('globalnamedata-0.3/assets/usprocessed.csv', namesFile(us))
            z.writestr('globalnamedata-0.3/assets/ukprocessed.csv', namesFile(uk))
    return b.getvalue()


def namesFile(names):
    out = ['"Name","years.appearing","count.male","count.female","prob.gender","obs.male","est.male","upper","lower"']
    for n, g in names.items():
        out.append('"{}",5,10,20,"{}",0.1,0.1,0.2,0'.format(n, g))
    return ('\n'.join(out) + '\n').encode('utf-8')


def pageOf(entries, head):
    s = '<HTML>\n<HEAD><TITLE>Journal Title Abbreviations</TITLE></HEAD>\n<BODY>\n' + head + '<DL>\n'
    for i, (name, abbr) in enumerate(entries):
        s += ('<A NAME="x"></A><DT>' if i == 0 else '</B><DT>') + name + '\n<B><DD>\t' + abbr + '\n'
    return s + '</B></DL>\n</BODY>\n</HTML>\n'


# ---------------------------------------------------------------- in a process of its own

def play(base, steps, patch):
    import importlib
    import metaknowledge as mk
    backend = importlib.import_module('metaknowledge.journalAbbreviations.backend')
    ng = importlib.import_module('metaknowledge.genders.nameGender')
    warnings.simplefilter('ignore')
    names = os.path.join(base, 'genders', 'namesData.csv')
    jdir = os.path.join(base, 'journalAbbreviations')
    if patch:
        backend.__file__ = os.path.join(jdir, 'backend.py')
        ng.targetFilePath = names
    net = Net()
    opener = urllib.request.build_opener(urllib.request.ProxyHandler({}), net)
    urllib.request.install_opener(opener)
    cwd = os.path.join(base, 'cwd')
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    out = []
    here = lambda: {os.path.join(d, f) for d in ('genders', 'journalAbbreviations') for f in os.listdir(os.path.join(base, d))}
    there = here()
    for s in steps:
        n = s.get('net') or {}
        net.pages, net.zip, net.fail, net.n, net.failed = n.get('pages', {}), base64.b64decode(n.get('zip', '')), n.get('fail'), 0, None
        plan = faults.Plan(base, s['disk'], True) if s.get('disk') else None
        r = {}
        try:
            with contextlib.redirect_stdout(io.StringIO()), (faults.Disk(plan) if plan else contextlib.nullcontext()), (faults.Interrupts(KeyboardInterrupt, s['interrupt']) if s.get('interrupt') else contextlib.nullcontext()) as stop:
                r['ok'] = step(mk, backend, s, jdir, names)
        except KeyboardInterrupt:
            r['interrupted'] = list(stop.where or ())
        except Exception as e:
            r['error'] = [type(e).__name__, str(e)[:300]]
            r['documented'] = isinstance(e, mk.mkException)
        r['requests'], r['failed'] = net.n, net.failed
        r['disk'] = bool(plan and plan.failed)
        r['moved'] = os.path.realpath(os.getcwd()) != os.path.realpath(cwd)
        os.chdir(cwd)
        r['left'] = os.listdir(cwd)
        r['stray'] = sorted(f for f in here() - there if os.path.splitext(f)[1] not in ('.dat', '.dir', '.bak') and os.path.basename(f) not in ('namesData.csv', 'j9Raws', '__pycache__'))
        out.append(r)
    return out


def step(mk, backend, s, jdir, names):
    do = s['do']
    if do == 'probe':
        with dbm.dumb.open(os.path.join(jdir, backend.abrevDBname), 'c') as db:
            db['MARK'] = s['mark']
        with open(names, 'wb') as f:
            f.write(namesFile({'Mark': s['mark']}))
        try:
            return backend.getj9dict(returnDict='WOS') == {'MARK': [s['mark']]} and mk.genders.getMapping() == {'Mark': s['mark']}
        finally:
            for e in ('dat', 'dir', 'bak'):
                if os.path.exists(os.path.join(jdir, backend.abrevDBname + '.' + e)):
                    os.remove(os.path.join(jdir, backend.abrevDBname + '.' + e))
            os.remove(names)
    if do == 'update':
        mk.journalAbbreviations.backend.updatej9DB(**s['kw'])
        if s['kw'].get('saveRawHTML'):
            raw = {}
            for b, _, fs in os.walk(os.path.join(jdir, 'j9Raws')):
                for f in fs:
                    with open(os.path.join(b, f), encoding='utf-8', newline='') as h:
                        raw[f] = h.read()
            shutil.rmtree(os.path.join(jdir, 'j9Raws'))
            return raw
        return None
    if do == 'extras':
        return mk.downloadExtras()
    if do == 'names':
        return mk.downloadData(**s['kw']) if s['top'] else mk.genders.downloadData(**s['kw'])
    if do == 'dict':
        return mk.journalAbbreviations.getj9dict(**s['kw'])
    if do == 'ask':
        c = mk.Citation('Smith J, 1999, {}, V1, P2'.format(s['abbr']))
        return [bool(c.isJournal()), c.FullJournalName()]
    if do == 'mapping':
        return mk.genders.getMapping()
    if do == 'gender':
        return mk.genders.nameStringGender('Smith, ' + s['name'])
    if do == 'add':
        return backend.addToDB(s['abbr'])
    if do == 'damage':
        with open(os.path.join(jdir, backend.abrevDBname + '.dir'), 'w') as f:
            f.write(s['text'])
        return None
    if do == 'delete':
        for f in os.listdir(jdir):
            if f.split('.')[0] == backend.abrevDBname:
                os.remove(os.path.join(jdir, f))
        return None


def forked(base, steps):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = {'ok': play(base, steps, True)}
            except BaseException:
                import traceback
                res = {'error': traceback.format_exc()[-1500:]}
            with os.fdopen(w, 'w') as f:
                json.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data)


def apart(base, steps):
    """The same in an interpreter whose package is the one at base"""
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    code = 'import sys, json; sys.path[:0] = [{!r}, {!r}]; from mkmon.checks import p41; print(json.dumps(p41.play({!r}, json.loads(sys.stdin.read()), False)))'.format(os.path.dirname(base), here, base)
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], input=json.dumps(steps), capture_output=True, text=True, encoding='utf-8', env=dict(os.environ, PYTHONIOENCODING='utf-8'))
    if r.returncode:
        return {'error': r.stderr[-1500:]}
    return {'ok': json.loads(r.stdout)}


INSIDE = None


def place(ctx):
    """(where the lists of this case are, how processes are run there)"""
    global INSIDE
    base = os.path.join(ctx.newdir('own'), 'metaknowledge')
    if INSIDE is None:
        for d in ('journalAbbreviations', 'genders'):
            os.makedirs(os.path.join(base, d))
        # does the package look for its lists where the case wants them?
        res = forked(base, [{'do': 'probe', 'mark': 'M {}'.format(random.random())}])
        INSIDE = 'ok' in res and res['ok'][0].get('ok') is True
        shutil.rmtree(base)
    if INSIDE:
        for d in ('journalAbbreviations', 'genders'):
            os.makedirs(os.path.join(base, d))
        return base, forked
    import metaknowledge as mk
    ctx.count('own_interpreter')
    shutil.copytree(os.path.dirname(mk.__file__), base)
    for d, fs in (('journalAbbreviations', ('.dat', '.dir', '.bak')), ('genders', ('namesData.csv',))):
        for f in os.listdir(os.path.join(base, d)):
            if f.endswith(fs):
                os.remove(os.path.join(base, d, f))
    return base, apart


# ---------------------------------------------------------------- cases

class Site:
    def __init__(self, rng):
        self.rng = rng
        self.entries = {}
        for l in LETTERS:
            self.entries[l] = [self.entry(l) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        self.us = self.people()
        self.uk = self.people()
        self.twice = set()      # what a page ever listed with one name twice
        self.note()

    def note(self):
        seen = set()
        for l in LETTERS:
            for e in self.entries[l]:
                if e in seen:
                    self.twice.add(e[1])
                seen.add(e)

    def people(self):
        return {n: self.rng.choice(['Male', 'Female', 'Unknown']) for n in self.rng.sample(FIRST, self.rng.randint(1, len(FIRST)))}

    def entry(self, l):
        rng = self.rng
        return (l[0] + rng.choice([' JOURNAL', 'CTA & MORE', "'S REVIEW", ' ÉTUDES', ' (LONDON)', '-LETTERS']) + rng.choice(['', ' OF ' + rng.choice(['GLASS', 'LIGHT', 'X'])]), rng.choice(ABBR) if rng.random() < 0.6 else 'J {} {}'.format(l, rng.randint(1, 3)))

    def change(self):
        for l in self.rng.sample(LETTERS, self.rng.randint(1, 5)):
            if self.rng.random() < 0.6:
                self.entries[l].append(self.entry(l))
            else:
                self.entries[l] = [self.entry(l)]
        self.note()
        if self.rng.random() < 0.5:
            self.us = self.people()

    def listed(self):
        out = {}
        for l in LETTERS:
            for name, abbr in self.entries[l]:
                out.setdefault(abbr, set()).add(name)
        return out

    def net(self, fail=None, pages=True, zip=True):
        kind = fail['kind'] if fail else None
        head = ['', '<H1>Titles</H1>\n'][len(self.us) % 2]
        d = {'fail': fail}
        if pages:
            d['pages'] = {l: pageOf(self.entries[l], head) for l in LETTERS}
        if zip:
            d['zip'] = base64.b64encode(zipOf(self.us, self.uk, kind)).decode()
        return d


def titled(names):
    return {n.title(): g for n, g in names.items()}


def plain(d):
    return {k: sorted(set(v)) for k, v in d.items()}


def case(rng, ctx):
    warnings.simplefilter('ignore')
    base, run = place(ctx)
    site = Site(rng)
    per = {}
    for l in LETTERS:
        for _, a in site.entries[l]:
            per.setdefault(a, set()).add(l)
    ctx.count('shared_abbreviations', sum(len(v) > 1 for v in per.values()))
    dbs = {}                # name -> {abbr: names} of the databases that exist
    manual = None
    names = None
    damaged = False
    fetched = asked = 0
    lastFailed = False
    for proc in range(rng.choice([1, 1, 2, 3, 4])):
        ctx.count('processes')
        steps, want = [], []
        loaded = mapping = None

        def fail(kinds, most):
            if rng.random() < 0.35:
                return {'kind': rng.choice(kinds), 'at': rng.randint(1, most)}
            return None

        def take(db):
            d = dbs.setdefault(db, {})
            for k, v in site.listed().items():
                d.setdefault(k, set()).update(v)

        for _ in range(rng.randint(1, 7)):
            whole = rng.choice(['j9Abbreviations', 'j9Abbreviations', 'other'])
            if whole not in dbs and not damaged and rng.random() < 0.3:
                # the first download is interrupted; what comes next is whole
                net = site.net(zip=False)
                steps.append({'do': rng.choice(['update', 'dict']), 'kw': {'dbname': whole}, 'net': net, 'interrupt': rng.randint(1, 1100)})
                want.append({'any': True})
                steps.append({'do': 'dict', 'kw': {'returnDict': 'WOS', 'dbname': whole}, 'net': net})
                take(whole)
                want.append({'dict': {k: sorted(v) for k, v in dbs[whole].items()}})
                fetched += 1
                asked += 1
                continue
            do = rng.choice(['update', 'update', 'dict', 'dict', 'ask', 'ask', 'names', 'mapping', 'gender', 'gender', 'add', 'extras', 'damage', 'change'])
            if do == 'change':
                site.change()
                continue
            s, w = {'do': do}, {}
            if do == 'update':
                raw = rng.random() < 0.15
                db = rng.choice(['j9Abbreviations', 'j9Abbreviations', 'j9Abbreviations', 'other'])
                s['kw'] = {}
                if db != 'j9Abbreviations' or rng.random() < 0.2:
                    s['kw']['dbname'] = db
                if raw:
                    s['kw']['saveRawHTML'] = True
                f = fail(PAGE_KINDS, 54 if raw else 27)
                if raw and f and f['at'] <= 27 and f['kind'] in ('login', 'empty', 'binary'):
                    f = None        # what is only saved is not looked at
                s['net'] = site.net(f, zip=False)
                bad = damaged and db == 'j9Abbreviations'
                if f or bad:
                    w['error'] = not raw
                    ctx.count('raw_failed', int(raw))
                else:
                    ctx.count('merged', int(db in dbs))
                    take(db)
                    fetched += 1
                    w['ok'] = {'{}_abrvjt.html'.format(l): p for l, p in s['net']['pages'].items()} if raw else None
                    w['requests'] = 54 if raw else 27
                    ctx.count('raw_pages', int(raw))
                ctx.count('updates')
                ctx.count('other_database', int(db == 'other'))
            elif do == 'dict':
                db = rng.choice(['j9Abbreviations', 'j9Abbreviations', 'j9Abbreviations', 'other'])
                which = rng.choice(['both', 'WOS', 'manual'])
                s['kw'] = {} if which == 'both' and rng.random() < 0.6 else {'returnDict': which}
                if db == 'other':
                    s['kw']['dbname'] = db
                f = fail(PAGE_KINDS, 27)
                s['net'] = site.net(f, zip=False)
                need = which != 'manual' and db not in dbs
                if which == 'manual' and manual is None:
                    w['error'] = True
                    w['requests'] = 0
                    ctx.count('manual_missing')
                elif which != 'manual' and damaged and db == 'j9Abbreviations' or need and f:
                    w['error'] = True
                else:
                    if need:
                        take(db)
                        fetched += 1
                        ctx.count('first_fetch')
                        ctx.count('retried', int(lastFailed))
                    else:
                        ctx.count('no_requests')
                    w['requests'] = 27 if need else 0
                    e = {k: set(v) for k, v in dbs[db].items()} if which != 'manual' else {}
                    if which != 'WOS':
                        e.update({k: set(v) for k, v in (manual or {}).items()})
                    w['dict'] = {k: sorted(v) for k, v in e.items()}
                    asked += 1
            elif do == 'ask':
                s['abbr'] = rng.choice(ABBR + ['NOWHERE J'])
                f = fail(PAGE_KINDS, 27)
                s['net'] = site.net(f, zip=False)
                need = loaded is None and 'j9Abbreviations' not in dbs
                if loaded is None and damaged or need and f:
                    w['error'] = True
                else:
                    if loaded is None:
                        if need:
                            take('j9Abbreviations')
                            fetched += 1
                            ctx.count('first_fetch')
                            ctx.count('retried', int(lastFailed))
                        loaded = {k: sorted(v) for k, v in dbs['j9Abbreviations'].items()}
                        loaded.update(manual or {})
                    w['requests'] = 27 if need else 0
                    w['full'] = loaded.get(s['abbr'])
                    ctx.count('asked')
                    asked += 1
            elif do in ('names', 'extras'):
                f = fail(ZIP_KINDS, 1)
                if do == 'names':
                    uk = rng.random() < 0.4
                    s['top'] = rng.random() < 0.3
                    s['kw'] = {'useUK': uk} if uk or rng.random() < 0.3 else {}
                    s['net'] = site.net(f, pages=False)
                    ctx.count('names_uk' if uk else 'names_us')
                    if not f and rng.random() < 0.2:
                        s['disk'] = rng.randint(1, 12)
                else:
                    uk = False
                    f = dict(f, at=28) if f else fail(PAGE_KINDS, 27)
                    s['net'] = site.net(f)
                    ctx.count('extras')
                    if damaged or f and f['at'] <= 27:
                        w['error'] = True
                    else:
                        take('j9Abbreviations')
                        fetched += 1
                if f or 'error' in w:
                    w.setdefault('error', False)
                    ctx.count('names_kept', int(names is not None))
                else:
                    w['ok'] = None
                    w['requests'] = 1 if do == 'names' else 28
                    w['names'] = titled(site.uk if uk else site.us)
                    if 'disk' not in s:
                        names = w['names']
                        fetched += 1
            elif do in ('mapping', 'gender'):
                f = fail(ZIP_KINDS, 1)
                s['net'] = site.net(f, pages=False)
                s['name'] = rng.choice(FIRST).title() if rng.random() < 0.6 else rng.choice(FIRST + ['nobody'])
                have = do == 'gender' and mapping is not None
                need = not have and names is None
                if need and f:
                    w['error'] = False
                else:
                    if need:
                        names = titled(site.us)
                        fetched += 1
                        ctx.count('names_first')
                    w['requests'] = int(need)
                    if do == 'mapping':
                        w['ok'] = names
                    else:
                        if mapping is None:
                            mapping = names
                        w['ok'] = mapping.get(s['name'].title(), 'Unknown')
                        ctx.count('genders')
                    asked += 1
            elif do == 'add':
                s['abbr'] = rng.choice([{'NATURE': ''}, {'CELL': 'My Cell'}, {'NEW J': 'New Journal|Newer'}])
                manual = dict(manual or {})
                manual.update({k: v.split('|') for k, v in s['abbr'].items()})
                w['ok'] = None
            elif do == 'damage':
                if damaged or not dbs.get('j9Abbreviations') or rng.random() < 0.6:
                    if not damaged:
                        continue
                    # what the message tells one to do
                    s['do'] = 'delete'
                    dbs.pop('j9Abbreviations')
                    damaged = False
                else:
                    s['text'] = rng.choice(["'NATURE', (0, 6)\n'CE", '<HTML>\n', "'A'\n", '5\n', "'NATURE', (0, 6\n", '\x01\x02\n'])
                    damaged = True
                    ctx.count('damaged_index')
                w['ok'] = None
            lastFailed = 'error' in w
            steps.append(s)
            want.append(w)
            if s.get('disk'):
                # whether the disk failed is only known afterwards
                break
        if not steps:
            continue
        res = run(base, steps)
        if 'error' in res:
            ctx.fail('process', 'the process failed: {}'.format(res['error']))
            return
        for i, (s, w, r) in enumerate(zip(steps, want, res['ok'])):
            what = lambda: 'step {} of process {}: {} {} with {}:'.format(i + 1, proc + 1, s['do'], {k: v for k, v in s.items() if k not in ('do', 'net')}, (s.get('net') or {}).get('fail'))
            if r['failed']:
                ctx.count('failed_requests')
                ctx.count('kind_' + r['failed'])
            ctx.check(not r['moved'], 'working-directory', lambda: '{} the working directory is another'.format(what()))
            ctx.eq(r['left'], [], 'left-files', what)
            ctx.eq(r['stray'], [], 'left-parts', lambda: '{} what is in the package besides the lists'.format(what()))
            if r['disk']:
                ctx.count('disk_failures')
                ctx.check('error' in r, 'disk-swallowed', lambda: '{} the disk failed and nothing was raised'.format(what()))
                continue
            if 'any' in w:
                ctx.count('interrupted', int('interrupted' in r))
                if r.get('interrupted'):
                    ctx.count('interrupted_writing', int(r['requests'] == 27))
                ctx.check('error' not in r, 'raised', lambda: '{} raises {}'.format(what(), r['error']))
                continue
            if 'names' in w and 'disk' in s:
                if 'error' not in r:
                    names = w['names']
            if 'error' in w:
                ctx.check('error' in r, 'not-raised', lambda: '{} answers {!r} although it failed'.format(what(), str(r.get('ok'))[:300]))
                if w['error'] and 'error' in r:
                    ctx.check(r['documented'], 'undocumented-error', lambda: '{} raises {}'.format(what(), r['error']))
                if 'requests' in w:
                    ctx.eq(r['requests'], w['requests'], 'requests', what)
                continue
            if not ctx.check('error' not in r, 'raised', lambda: '{} raises {}'.format(what(), r['error'])):
                continue
            if 'requests' in w:
                ctx.eq(r['requests'], w['requests'], 'requests', what)
            if 'ok' in w:
                ctx.eq(r['ok'], w['ok'], 'answer', what)
            if 'dict' in w:
                ctx.eq(plain(r['ok']), w['dict'], 'journals', what)
                again = [k for k, v in r['ok'].items() if len(set(v)) < len(v) and k not in site.twice and k not in (manual or {})]
                ctx.check(not again, 'names-again', lambda: '{}: names listed once are there again: {}'.format(what(), {k: r['ok'][k] for k in again}))
            if 'full' in w:
                e = w['full'] or ['']
                ctx.eq(r['ok'][0], bool(e[0]), 'is-journal', what)
                ctx.check(r['ok'][1] in e if e[0] else r['ok'][1] is None, 'full-name', lambda: '{} is {!r}, its names are {}'.format(what(), r['ok'][1], e))
    if fetched and asked:
        ctx.sig(fetched, asked, sorted(dbs), sorted(names or {}), sorted((k, sorted(v)) for k, v in site.listed().items()))
        ctx.sample({'downloads': fetched, 'questions': asked, 'databases': sorted(dbs), 'journals': len(dbs.get('j9Abbreviations', {}))})
