"""Tables and files of records say what the records say."""
import collections
import contextlib
import csv
import os
from mkmon import gen, kinds, rc, ref, standins

ID = 'P21'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 12000, 200000
RULE = ('Random collections of 0-9 records of three formats; csv files (all columns, chosen columns, first columns, long names, other delimiters, quotes and list delimiters, one file or split by a field) and '
        'dictionaries of columns (decoded and raw) are read and compared row by row with the described records. Non-trivial: at least two records and three columns.')
ASSUMPTIONS = ['A cell holds the record\'s value under the name at the head of its column; a value that is a list is joined, a missing one is empty.', 'Rows come in any order.',
               'A long name of a column is shown as its tag unless long names are asked for.', 'Values records are split by make file names of at most 200 characters, with slashes replaced.']
REQUIRED = ['csv', 'dict', 'only', 'first', 'first_not_in_only', 'long_names', 'no_long_name', 'split', 'split_list', 'split_missing', 'delimiters', 'raw', 'gendered', 'empty', 'default_name', 'mixed', 'no_authors',
            'missing_cells', 'list_cells', 'sub_dict', 'split_citations', 'alike', 'split_slash', 'split_cut', 'other_directory', 'name_of_path', 'few_open_files']
EXP = {'WOS': kinds.wosExpected, 'Medline': kinds.medExpected, 'Scopus': kinds.scoExpected}
LONG = dict(ref.WOS_NAMES)
TAGOF = {v: k for k, v in LONG.items()}
DEFAULT_FIRST = ['id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI']
MAP = {k.title(): v for k, v in standins.NAMES.items()}


def listing():
    return {os.path.relpath(os.path.join(d, f)) for d, _, fs in os.walk('.') for f in fs}


def gender(name):
    p = name.split(', ')
    return 'Unknown' if len(p) < 2 else MAP.get(p[1].split(' ')[0].title(), 'Unknown')


def text(v):
    """The text of one value of a cell"""
    return v.text if isinstance(v, gen.Cit) else str(v)


def cell(v, delim):
    if v is None:
        return ''
    if isinstance(v, str):
        return v
    if isinstance(v, (list, tuple, dict)):
        return delim.join(text(x) for x in v)
    return text(v)


class Row:
    """A described record and a package record of its own for the values only decoding can tell (checked elsewhere)"""

    def __init__(self, r):
        import metaknowledge as mk
        self.r = r
        self.fresh = {'WOS': mk.WOSRecord, 'Medline': mk.MedlineRecord, 'Scopus': mk.ScopusRecord}[r.kind](r.text())

    def value(self, key):
        if self.r.kind == 'WOS' and key != 'selfCitation':
            return ref.wosGet(self.r, key)
        return self.fresh.get(key)

    def raw(self, key):
        raw = dict(self.fresh.items(raw=True))
        return raw.get(key, raw.get(self.fresh.getAltName(key)))

    def authors(self):
        return len(ref.asList(rc.value(self.r, 'authorsShort')))

    def genders(self):
        g = [gender(a) for a in set(ref.asList(rc.value(self.r, 'authorsFull')))]
        return [g.count('Male'), g.count('Female'), g.count('Unknown')]


def head(rng, ctx, rows, kind, isCsv):
    """(options, expected columns or None when a long name is missing)"""
    kw = {}
    keys = list(rc.keysFor(rng, kind)) + ['id', 'ZZ']
    tags = [t for r in rows for t in r.r.tags]
    first = None
    if isCsv and rng.random() < 0.4:
        ctx.count('first')
        first = rng.sample(keys, rng.randint(0, 4))
        first = list(collections.OrderedDict((TAGOF.get(t, t), t) for t in first).values())
        kw['firstTags'] = rng.choice([list, tuple])(first)
    only = None
    if rng.random() < 0.5:
        ctx.count('only')
        only = rng.sample(keys, rng.randint(1, 7))
        if rng.random() < 0.3 and tags:
            only += rng.sample(tags, min(len(tags), 3))
        only = list(collections.OrderedDict((TAGOF.get(t, t), t) for t in only).values())
        kw['onlyTheseTags'] = rng.choice([list, tuple])(only)
    f = [TAGOF.get(t, t) for t in (DEFAULT_FIRST if first is None else first)] if isCsv else []
    if only is not None:
        o = [TAGOF.get(t, t) for t in only]
        ctx.count('first_not_in_only', int(any(t not in o for t in f)))
        lead, rest = [t for t in f if t in o], [t for t in o if t not in f]
    else:
        lead, rest = f, sorted({t for t in tags if t not in f})
    if rng.random() < 0.3:
        ctx.count('long_names')
        kw['longNames'] = True
        if any(t not in LONG and t != 'id' for t in lead + rest):
            ctx.count('no_long_name')
            return kw, None, None
        lead, rest = [LONG.get(t, t) for t in lead], [LONG.get(t, t) for t in rest]
    return kw, lead, (rest if only is not None else set(rest))


def case(rng, ctx):
    def alike(recs):
        # values that differ in blanks at their ends, or in case
        w = [r for r in recs if r.kind == 'WOS']
        if len(w) > 1 and rng.random() < 0.3:
            ctx.count('alike')
            odd = rng.random() < 0.5
            long = 'LONG NAME ' * 20
            for r in w:
                v = rng.choice(['word', 'word ', 'Word', ' word', 'word  '])
                r.tags['DE'] = [v]
                r.tags['J9'] = [v.upper()]
                if odd:
                    r.tags['J9'] = [rng.choice(['WORD', 'A/B', os.path.join(os.getcwd(), 'A'), './A', 'nowhere/A', '.', long + 'A', long + 'B', long])]
    recs, RC, kind = rc.collection(rng, ctx, full=rng.random() < 0.2, twist=alike)
    rows = [Row(r) for r in recs]
    ctx.count('mixed', int(len({r.kind for r in recs}) > 1))
    ctx.count('empty', int(not recs))
    ctx.count('no_authors', int(any(not r.authors() for r in rows)))
    for r in rows:
        ctx.count('gendered', int(any(r.genders()[:2])))
    isCsv = rng.random() < 0.65
    kw, lead, rest = head(rng, ctx, rows, kind, isCsv)
    if rng.random() < 0.4:
        kw['numAuthors'] = rng.random() < 0.5
    if rng.random() < 0.4:
        kw['genderCounts'] = rng.random() < 0.5
    extra = (['num-Authors'] if kw.get('numAuthors', True) else []) + (['num-Male', 'num-Female', 'num-Unknown'] if kw.get('genderCounts', True) else [])
    desc = lambda: '{}({})'.format('writeCSV' if isCsv else 'makeDict', kw)
    (csvCase if isCsv else dictCase)(rng, ctx, rows, RC, kind, kw, lead, rest, extra, desc)
    if rows and rng.random() < 0.2:
        ctx.count('sub_dict')
        row = rng.choice(rows)
        R = [x for x in RC if x.id == row.fresh.id][0]
        tags = rng.sample(rc.keysFor(rng, kind), rng.randint(0, 5)) + rng.choice([[], ['id']])
        raw = rng.random() < 0.3
        got = R.subDict(tags, raw=raw)
        ctx.eq({k: kinds.norm(v) for k, v in got.items()}, {t: kinds.norm(row.raw(t) if raw else row.fresh.get(t)) for t in tags}, 'sub-dict', lambda: 'subDict({}, raw={})'.format(tags, raw))


def wants(row, cols, extra, render):
    d = {c: render(c) for c in cols}
    if 'num-Authors' in extra:
        d['num-Authors'] = row.authors()
    if 'num-Male' in extra:
        d['num-Male'], d['num-Female'], d['num-Unknown'] = row.genders()
    return d


def dictCase(rng, ctx, rows, RC, kind, kw, lead, rest, extra, desc):
    ctx.count('dict')
    raw = rng.random() < 0.3
    if raw:
        kw['raw'] = True
        ctx.count('raw')
    if lead is None:
        try:
            RC.makeDict(**kw)
        except KeyError:
            ctx.check(True, 'no-long-name')
        else:
            ctx.fail('no-long-name', '{}: a tag without a long name was accepted'.format(desc()))
        return
    cols = list(lead) + list(rest)
    got = RC.makeDict(**kw)
    if not ctx.eq(set(got), set(cols) | set(extra), 'dict-columns', desc):
        return
    if not ctx.check(all(len(v) == len(rows) for v in got.values()), 'dict-lengths', lambda: '{}: {} for {} records'.format(desc(), {k: len(v) for k, v in got.items()}, len(rows))):
        return
    have = collections.Counter(repr(sorted((k, kinds.norm(v[i])) for k, v in got.items())) for i in range(len(rows)))
    want = collections.Counter(repr(sorted((k, kinds.norm(v)) for k, v in wants(r, cols, extra, lambda c, r=r: r.fresh.get(c, raw=raw)).items())) for r in rows)
    ctx.eq(have, want, 'dict-rows', desc)
    # the values of the described record, where the description alone tells them
    if not raw:
        for r in rows:
            e = EXP[r.r.kind](r.r)
            for c in cols:
                if c in e:
                    ctx.check(any(kinds.norm(v) == e[c] for v in got[c]), 'dict-value', lambda: '{}: no {} in column {}'.format(desc(), e[c], c))
    if len(rows) > 1 and len(cols) > 2:
        ctx.sig('dict', cols, want)


def csvCase(rng, ctx, rows, RC, kind, kw, lead, rest, extra, desc):
    ctx.count('csv')
    delim, quote, ld = ',', '"', '|'
    if rng.random() < 0.35:
        ctx.count('delimiters')
        delim, quote, ld = rng.choice([';', '\t', '∂', ',']), rng.choice(['"', "'", '≠']), rng.choice(['|', '; ', '«', '', '\n'])
        kw.update(csvDelimiter=delim, csvQuote=quote, listDelimiter=ld)
    split = None
    if rng.random() < 0.3:
        pool = {'wos': ['PY', 'year', 'AF', 'authorsFull', 'J9', 'SC', 'DT', 'LA', 'SN', 'NR', 'DE', 'CR'], 'med': ['year', 'FAU', 'LA', 'OT'], 'sco': ['Year', 'year', 'Authors', 'Source']}.get(kind, ['year', 'authorsFull'])
        split = rng.choice(pool) if rng.random() < 0.7 or 'J9' not in pool else 'J9'
        vals = {x for r in rows for x in map(text, ref.asList(r.value(split)))}
        if any('\0' in v or len(v[:200].encode('utf-8')) > 230 for v in vals):
            split = None
        else:
            ctx.count('split_slash', int(any('/' in v for v in vals)))
            ctx.count('split_cut', int(len({v[:200] for v in vals}) < len(vals)))
    name = None if rng.random() < 0.3 else rng.choice(['out.csv', 'naïve file', 'a,b.csv', 'out dir/o.csv', os.path.join(os.getcwd(), 'out dir', 'a.csv')])
    ctx.count('default_name', int(name is None))
    if name is None and rng.random() < 0.3:
        ctx.count('name_of_path')
        RC.name = 'files-from-/data/my records'
    base = os.path.relpath(name) if name else RC.name.replace('/', '_') + '.csv'
    os.makedirs('out dir', exist_ok=True)
    ctx.count('other_directory', int('/' in base))
    if name:
        kw['fname'] = name
    if split:
        ctx.count('split')
        kw['splitByTag'] = split
        ctx.count('split_citations', int(split == 'CR'))
    before = listing()
    if lead is None:
        try:
            RC.writeCSV(**kw)
        except KeyError:
            ctx.check(True, 'no-long-name')
        else:
            ctx.fail('no-long-name', '{}: a tag without a long name was accepted'.format(desc()))
        return
    few = split is not None and rng.random() < 0.3
    with (standins.fewFiles(2) if few else contextlib.nullcontext()):
        RC.writeCSV(**kw)
    new = listing() - before
    cols = list(lead) + list(rest)
    files = collections.defaultdict(list)
    if split:
        for r in rows:
            v = r.value(split)
            if v is None:
                ctx.count('split_missing')
                continue
            ctx.count('split_list', int(isinstance(v, list) and len(v) > 1))
            for x in {text(x)[:200].replace('/', '_') for x in ref.asList(v)}:
                files[os.path.join(os.path.dirname(base), '{}-{}'.format(x, os.path.basename(base)))].append(r)
        ctx.count('few_open_files', int(few and len(files) > 2))
    else:
        files[base] = rows
    if not ctx.eq(new, set(files), 'files', desc):
        return
    for f, rs in files.items():
        with open(f, newline='', encoding='utf-8') as h:
            got = list(csv.reader(h, delimiter=delim, quotechar=quote))
        os.remove(f)
        hd = got[0] if got else []
        n = len(lead)
        mid = hd[n:len(hd) - len(extra)] if extra else hd[n:]
        ok = hd[:n] == list(lead) and (set(mid) == rest and len(mid) == len(rest) if isinstance(rest, set) else mid == rest) and hd[len(hd) - len(extra):] == extra
        if not ctx.check(ok, 'csv-header', lambda: '{} of {}: {} instead of {} + {} + {}'.format(f, desc(), hd, lead, rest, extra)):
            return
        ctx.check(all(len(x) == len(hd) for x in got), 'csv-row-lengths', desc)
        have = collections.Counter(tuple(sorted(zip(hd, x))) for x in got[1:])
        want = collections.Counter()
        for r in rs:
            d = wants(r, cols, extra, lambda c: cell(r.value(c), ld))
            ctx.count('missing_cells', sum(v == '' for v in d.values()))
            ctx.count('list_cells', sum(isinstance(r.value(c), list) for c in cols))
            want[tuple(sorted((k, str(v)) for k, v in d.items()))] += 1
        ctx.eq(have, want, 'csv-rows', lambda: '{} of {}'.format(f, desc()))
        if len(rs) > 1 and len(cols) > 2:
            ctx.sig('csv', cols, want)
