"""BibTeX entries state every field of a record with its value."""
import collections
from mkmon import gen, kinds, rc, ref
from mkmon.checks.p21 import Row

ID = 'P22'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 15000, 250000
RULE = ('Random collections of 0-9 records of four formats, some of them malformed; BibTeX strings and files with all options (string lengths 1-1000, both brace styles, common fields only, both identifiers) are '
        'read by a small BibTeX reader and compared with the described records. Non-trivial: at least two entries.')
ASSUMPTIONS = ['Lists are joined with " and " (with line breaks in the other style), quotation marks of values that have to be cut into pieces are left out.', 'Values hold no double closing braces.',
               'A value that is cut into pieces may lack what is left after the last whole piece (a known finding, probed separately).']
REQUIRED = ['entries', 'files', 'cut', 'exact_pieces', 'with_quotes', 'with_braces', 'double_braces', 'common_only', 'plain_ids', 'nice_ids', 'bad_records', 'lists', 'proquest', 'empty', 'default_name', 'no_authors']
COMMON = ['year', 'volume', 'beginningPage', 'DOI', 'address', 'j9', 'citations', 'grants', 'selfCitation', 'authorsShort', 'authorsFull', 'title', 'journal', 'keywords', 'abstract', 'id']


class Broken(Exception):
    pass


def readEntry(s, i, wos):
    """(type, key, [(field, [pieces], style)], end) of the entry at s[i]"""
    def need(t, j):
        if not s.startswith(t, j):
            raise Broken('no {!r} at {!r}'.format(t, s[j:j + 60]))
        return j + len(t)

    i = need('@', i)
    j = s.index('{', i)
    kind = s[i:j]
    i = j + 1
    j = s.index(',\n', i)
    key = s[i:j].strip()
    i = j + 1
    fields = []
    while True:
        while i < len(s) and s[i] in ' \n':
            i += 1
        if s.startswith('}', i):
            return kind, key, fields, i + 1
        j = s.find(' = ', i)
        if j < 0:
            raise Broken('no field at {!r}'.format(s[i:i + 60]))
        name = s[i:j]
        i = j + 3
        if s.startswith('{{', i) and (wos or name == 'author'):
            j = s.find('}},\n', i)
            if j < 0:
                raise Broken('braces of {} are not closed'.format(name))
            fields.append((name, [s[i + 2:j]], '{{'))
            i = j + 3
        elif s.startswith('{', i):
            out = []
            i += 1
            while not s.startswith('}', i):
                if s[i] == '\\' and s[i + 1] in '{}':
                    i += 1
                out.append(s[i])
                i += 1
            fields.append((name, [''.join(out)], '{'))
            i = need(',', i + 1)
        else:
            pieces = []
            while True:
                i = need('"', i)
                j = s.index('"', i)
                pieces.append(s[i:j])
                i = j + 1
                if s.startswith(' # ', i):
                    i += 3
                else:
                    break
            fields.append((name, pieces, '"'))
            i = need(',', i)


def readFile(s, wos):
    out = []
    i = 0
    lines = 0
    while i < len(s):
        if s[i] == '%':
            i = s.index('\n', i) + 1
            lines += 1
        elif s[i] in ' \n':
            i += 1
        else:
            kind, key, f, i = readEntry(s, i, wos)
            out.append((kind, key, f))
    return out


class ProRow:
    def __init__(self, r, fresh):
        self.r, self.fresh = r, fresh

    def value(self, k):
        return self.fresh.get(k)


def txt(v):
    return v.text if isinstance(v, gen.Cit) else str(v)


def fieldsOf(row, common):
    if common:
        return {k: row.value(k) for k in COMMON if k in row.fresh}
    return {k: row.value(k) for k in row.r.tags}


def nice(row):
    """The parts every readable identifier has"""
    out = []
    f = row.fresh
    au, y, mo, ti = f.get('authorsFull'), f.get('year'), f.get('month'), f.get('title')
    s = au[0].title().replace(' ', '').replace(',', '').replace('.', '') if au else ''
    if y:
        s += '-{}'.format(y)
    if mo:
        s += '-{}'.format(mo)
    if ti:
        s += '-' + max(enumerate(ti.split(' ')), key=lambda p: (len(p[1]), p[0]))[1].title()
    return s


def judge(ctx, entry, row, kw, what):
    wos, maxL = kw.get('WOSMode', False), kw.get('maxLength', 1000)
    kind, key, fields = entry
    ctx.count('entries')
    au = row.value('authorsFull')
    want = fieldsOf(row, kw.get('restrictedOutput', False))
    if not ctx.check(fields and fields[0][0] == 'author', 'author-first', lambda: '{}: {}'.format(what(), fields[:1])):
        return
    ctx.count('no_authors', int(au is None))
    ctx.eq(''.join(fields[0][1]), ' and '.join(au if au is not None else ['None']), 'authors', what)
    ctx.eq(collections.Counter(f[0] for f in fields[1:]), collections.Counter(list(want)), 'fields', what)
    for name, pieces, style in fields[1:]:
        if name not in want:
            continue
        v = want[name]
        lst = isinstance(v, list)
        ctx.count('lists', int(lst))
        whole = ('\n   ' if wos else ' and ').join(txt(x) for x in v) if lst else txt(v)
        if wos:
            ctx.count('double_braces')
            ctx.check(style == '{{', 'style', lambda: '{} {}'.format(what(), name))
            ctx.eq(''.join(pieces), whole, 'value', lambda: '{} {}'.format(what(), name))
        elif len(whole) > maxL:
            ctx.count('cut')
            bare = whole.replace('"', '')
            n = len(bare) - len(bare) % maxL
            ctx.count('exact_pieces', int(n == len(bare)))
            got = ''.join(pieces)
            ctx.check(all(len(p) <= maxL for p in pieces), 'piece-length', lambda: '{} {}: pieces of {}'.format(what(), name, [len(p) for p in pieces]))
            ctx.check(got == bare or (n != len(bare) and got == bare[:n]), 'cut-value', lambda: '{} {}: {!r} of {!r}'.format(what(), name, got[:300], bare[:300]))
        else:
            ctx.count('with_quotes', int('"' in whole))
            ctx.count('with_braces', int('"' in whole and ('{' in whole or '}' in whole)))
            ctx.eq(''.join(pieces), whole, 'value', lambda: '{} {}'.format(what(), name))
    if kw.get('niceID', True):
        ctx.count('nice_ids')
        ctx.check(key.startswith(nice(row).strip()), 'nice-id', lambda: '{}: {!r} does not start with {!r}'.format(what(), key, nice(row)))
    elif wos:
        ctx.eq(key, 'ISI:' + str(row.fresh.id)[4:], 'wos-id', what)
    else:
        ctx.count('plain_ids')
        ctx.eq(key, str(row.fresh.id), 'id', what)


def case(rng, ctx):
    import metaknowledge as mk
    if rng.random() < 0.15:
        ctx.count('proquest')
        used = set()
        recs = [gen.pro(rng, used) for _ in range(rng.randint(1, 4))]
        mkRC = lambda: mk.RecordCollection(ctx.write(ctx.path('pro.txt'), gen.proFile(recs)))
        RC = mkRC()
        fresh = {R.id: R for R in mkRC()}
        rows = [ProRow(r, fresh[r.id]) for r in recs if r.id in fresh]
    else:
        recs, RC, kind = rc.collection(rng, ctx, full=rng.random() < 0.3)
        for r in recs:
            if r.kind == 'WOS' and rng.random() < 0.3:
                t = rng.choice(['TI', 'AB', 'DE', 'FX'])
                r.tags[t] = [rng.choice(['say "x" {y} end', '"', '{a}', 'x' * rng.choice([999, 1000, 1001, 30]) + '"', 'a "b', '#', 'with } and "q"', 'tail \\ "z"', 'q' * 60])]
        Rs = [{'WOS': mk.WOSRecord, 'Medline': mk.MedlineRecord, 'Scopus': mk.ScopusRecord}[r.kind](r.text()) for r in recs]
        RC = mk.RecordCollection(Rs, name='made')
        rows = [Row(r) for r in recs]
    if any('}}' in txt(x) or '\\{' in txt(x) or '\\}' in txt(x) for r in rows for v in r.fresh.values() for x in ref.asList(v)):
        ctx.count('double_closing')
        return
    byId = {r.fresh.id: r for r in rows}
    bad = 0
    if rng.random() < 0.2:
        bad = rng.randint(1, 2)
        for i in range(bad):
            RC.add(mk.WOSRecord('PT J\nAU Nobody, N\nUT WOS:BAD{}\n'.format(i)))
        ctx.count('bad_records')
    mx = rng.choice([1, 2, 5, 7, 10, 20, 50, 100, 500, 1000, None])
    kw = {}
    if mx is not None:
        kw['maxLength'] = mx
    if rng.random() < 0.3:
        kw['WOSMode'] = True
    if rng.random() < 0.4:
        kw['restrictedOutput'] = True
        ctx.count('common_only')
    if rng.random() < 0.5:
        kw['niceID'] = False
    ctx.count('empty', int(not rows))
    if rng.random() < 0.5:
        n = 0
        for R in RC:
            if R.bad:
                try:
                    R.bibString(**kw)
                except mk.BadRecord:
                    ctx.check(True, 'bad-record')
                else:
                    ctx.fail('bad-record', 'a malformed record was written')
                continue
            n += 1
            s = R.bibString(**kw)
            what = lambda: '{} as {}'.format(R.id, kw)
            try:
                kind, key, fields, end = readEntry(s + '\n', 0, kw.get('WOSMode'))
            except (Broken, ValueError, IndexError) as e:
                ctx.fail('unreadable', '{}: {} in {!r}'.format(what(), e, s[:600]))
                continue
            ctx.check(not s[end:].strip(), 'trailing', what)
            judge(ctx, (kind, key, fields), byId[R.id], kw, what)
        ctx.eq(n, len(rows), 'records')
    else:
        ctx.count('files')
        f = None if rng.random() < 0.3 else ctx.path('out.bib')
        ctx.count('default_name', int(f is None))
        if rng.random() < 0.3:
            RC.name = 'files-from-/data/my records'
        m = {'maxLength': 'maxStringLength', 'WOSMode': 'wosMode', 'restrictedOutput': 'reducedOutput', 'niceID': 'niceIDs'}
        RC.writeBib(f, **{m[k]: v for k, v in kw.items()})
        s = ctx.read(f or ctx.path(RC.name[:200].replace('/', '_') + '.bib')).decode('utf-8')
        what = lambda: 'file as {}'.format(kw)
        try:
            entries = readFile(s, kw.get('WOSMode'))
        except (Broken, ValueError, IndexError) as e:
            ctx.fail('unreadable', '{}: {} in {!r}'.format(what(), e, s[:900]))
            return
        order = [R for R in RC if not R.bad]
        if ctx.eq(len(entries), len(rows), 'entry-count', what):
            # entries come in the order of the collection
            for e, R in zip(entries, order):
                judge(ctx, e, byId[R.id], kw, what)
    if len(rows) > 1:
        ctx.sig(sorted((k, repr(v)) for k, v in kw.items()), sorted(byId))


def lostTail(rng, ctx):
    """The end of a value that is cut into pieces is not written"""
    import metaknowledge as mk
    title = 'x' * rng.randint(11, 19)
    s = mk.WOSRecord('PT J\nTI {}\nUT WOS:A1\nER\n'.format(title)).bibString(maxLength=10, niceID=False)
    got = dict((n, ''.join(p)) for n, p, _ in readEntry(s + '\n', 0, False)[2])['TI']
    if got != title:
        ctx.fail('cut-tail' if got == title[:10] else 'cut-tail-other', 'the value {} is written as {}'.format(title, got))


PROBES = {'cut-tail': lostTail}
