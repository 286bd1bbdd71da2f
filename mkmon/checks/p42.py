"""Records and grants know where they came from."""
import os
import pickle
import warnings
from mkmon import dirs, gen, grants as gr
from mkmon.ref import rawDict

ID = 'P42'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 12000, 200000
RULE = ('Random files of every record and grant format, with records that cannot be read, rows over several lines and blank lines, read alone, as directories (with caches, twice) and through copies, pickles, subsets and '
        'unions; the file and the line of every record and grant are compared with where the generator wrote the text it has the fields of. Non-trivial: at least three records or grants.')
ASSUMPTIONS = ['Lines count from one.', 'A ProQuest record starts at its "Document n of m" line, an NSF award with its file.', 'A merged NSERC grant is at its first row.', 'Paths are absolute.']
REQUIRED = ['wos', 'med', 'sco', 'pro', 'nserc', 'cihr', 'csv', 'nsf', 'bad_records', 'directory', 'cached', 'merged', 'several_lines', 'originals', 'messages', 'copies', 'pickles', 'subsets', 'unions', 'given', 'shared_ids', 'damaged']


def spoil(rng, r):
    """The same text as a record that cannot be read"""
    t = r.text()
    if r.kind == 'WOS':
        how = rng.choice(['noUT', 'twice', 'short'])
        lines = t.split('\n')[:-2]
        if how == 'noUT':
            lines = [l for l in lines if not l.startswith('UT ')]
        elif how == 'twice':
            lines.append('PT J')
        else:
            lines.append('X')
            return '\n'.join(lines) + '\n', False
        return '\n'.join(lines) + '\nER\n', True
    if r.kind == 'Medline':
        return t + 'PMID- 17\n', True
    if r.kind == 'Scopus':
        if rng.random() < 0.5:
            return t.replace(r.tags['EID'], ''), True
        return 'one more,' + t, True
    lines = t.split('\n')
    return '\n'.join(l for l in lines if not l.startswith('ProQuest document ID: ')), True


def recordFile(rng, ctx, mk_, old):
    """(kind, extension, bytes, {line: fields or None for a record that cannot be read}, records)"""
    kind, data, recs, damaged = mk_.file(old=old)
    text = data.decode('latin-1' if kind == 'med' else 'utf-8')
    ctx.count('damaged', int(damaged))
    pos, found, n = 0, {}, len(recs)
    for i, r in enumerate(recs, 1):
        t = r.text()
        if kind == 'pro':
            t = 'Document {} of {}\n\n'.format(i, n) + t
        k = text.find(t, pos)
        if k < 0:
            break       # the damage took it
        if rng.random() < 0.12 and not damaged:
            new, more = spoil(rng, r)
            if kind == 'pro':
                new = t[:len(t) - len(r.text())] + new
            elif kind == 'wos' and not more and i < n:
                new, more = spoil(rng, r)
                if not more:
                    new = t
            if new != t:
                text = text[:k] + new + text[k + len(t):]
                found[text.count('\n', 0, k) + 1] = None
                pos = k + len(new)
                continue
        found[text.count('\n', 0, k) + 1] = rawOf(r)
        pos = k + len(t)
    if damaged and kind == 'sco':
        # the damage is a row that cannot be read
        found[text.count('\n')] = None
    ctx.count(kind)
    return kind, rng.choice(dirs.EXT[kind]), text.encode('latin-1' if kind == 'med' else 'utf-8'), found, recs


def rawOf(r):
    if r.kind == 'Scopus':
        return dict(r.tags)
    return {k: list(v) for k, v in r.tags.items()}


def grantFile(rng, ctx, serial):
    """(name, bytes, {line: (fields, text)})"""
    kind = rng.choice(['nserc', 'cihr', 'csv', 'nsf'])
    ctx.count(kind)
    if kind == 'nsf':
        data, gs = gr.nsf(rng, str(10 ** 8 + serial))
        return '{}.xml'.format(serial), data, {1: (gs[0].fields, None)}
    head = ''
    if kind == 'nserc':
        cols, rows = gr.nsercRows(rng, rng.randint(1, 6), ['{}-{}'.format(serial, i) for i in range(4)])
        name = 'NSERC_{}.csv'.format(serial)
    elif kind == 'cihr':
        cols = ['Title', 'PI Names', 'Amount', 'Keywords']
        rows = [dict({c: gr.val(rng, 1, 3) for c in cols}, **{'PI Names': rng.choice(gr.NAMES)}) for _ in range(rng.randint(1, 5))]
        head = 'Search Criteria' + ',' * 9 + '\n' + 'x' + ',' * 9 + '\n' + ',' * 9 + '\n'
        name = 'cihr_{}.csv'.format(serial)
    else:
        cols = rng.sample(['id', 'Who', 'Amount', 'Year\nof it', 'Notes', 'Field "x"'], rng.randint(2, 5))
        rows = [{c: gr.val(rng, 1, 3) for c in cols} for _ in range(rng.randint(1, 5))]
        name = 'other{}.csv'.format(serial)
    text = head + gr.csvText(cols, [], '\n')
    found, first = {}, {}
    for i, r in enumerate(rows):
        for c in cols[1:]:
            if rng.random() < 0.1:
                r[c] = rng.choice(['{}\nthe same end', '{}\n\n{}', '"{}\n"', '\n{}']).format(r[c], i)
        t = gr.csvText(cols, [r], '\n')
        t = t[len(gr.csvText(cols, [], '\n')):]
        if rng.random() < 0.15:
            text += '\n'
        line = text.count('\n') + 1
        text += t
        ctx.count('several_lines', int(t.count('\n') > 1))
        if kind == 'nserc' and r['Cle'] in first:
            gr.merge(found[first[r['Cle']]][0], r)
            ctx.count('merged')
            continue
        if kind == 'nserc':
            first[r['Cle']] = line
        found[line] = (dict(r), t)
    return name, text.replace('\n', rng.choice(['\n', '\r\n']) if kind != 'cihr' else '\n').encode('latin-1'), found


def place(R):
    return os.path.realpath(R.sourceFile), R.sourceLine


def compare(ctx, C, files, what, complete=False):
    """Every record at the place its text was written at"""
    seen = {}
    for R in C:
        p, l = place(R)
        if not ctx.check(p in files, 'file', lambda: '{}: {!r} says it is from {!r}'.format(what, R, R.sourceFile)):
            continue
        grant = isinstance(R, __import__('metaknowledge').grants.Grant)
        w = files[p].get(l, 0)
        if not ctx.check(w != 0, 'line', lambda: '{}: {!r} says it starts at line {} of {}, where {} do'.format(what, R, l, os.path.basename(p), sorted(files[p]))):
            continue
        ctx.check(seen.setdefault((p, l), R) is R, 'line-repeats', lambda: '{}: two at line {} of {}'.format(what, l, os.path.basename(p)))
        if grant:
            if w[1] is None:
                continue
            ctx.eq(dict(R), w[0], 'grant-fields', lambda: '{}: grant at line {}'.format(what, l))
            ctx.eq(R.original.replace('\r\n', '\n'), w[1], 'original', lambda: '{}: text of the grant at line {}'.format(what, l))
            ctx.count('originals')
        elif w is None:
            ctx.check(R.bad, 'bad', lambda: '{}: the record at line {} cannot be read but has no error'.format(what, l))
            ctx.count('bad_records')
        else:
            ctx.check(not R.bad, 'good', lambda: '{}: record at line {}: {!r}'.format(what, l, R.error))
            ctx.eq(rawDict(R), w, 'fields', lambda: '{}: record at line {}'.format(what, l))
    return seen


def message(ctx, R):
    """What cannot be written names its place"""
    for f in (bytes, lambda R: R.writeRecord(open(os.devnull, 'w')), lambda R: R.bibString()):
        try:
            f(R)
        except Exception as e:
            s = str(e)
            if 'original line' not in s:
                continue
            ctx.check(str(R.sourceLine) in s and R.sourceFile in s, 'message', lambda: '{!r} at line {} of {}'.format(s, R.sourceLine, R.sourceFile))
            ctx.count('messages')


def case(rng, ctx):
    import metaknowledge as mk
    warnings.simplefilter('ignore')
    d = ctx.newdir('d')
    files = {}
    isGrants = rng.random() < 0.35
    n = rng.choice([1, 1, 2, 3])
    maker = dirs.Maker(rng)
    old = []
    names = []
    kinds = []
    for i in range(n):
        if isGrants:
            name, data, found = grantFile(rng, ctx, 100 + i)
        else:
            share = [gen.changed(rng, r) if rng.random() < 0.5 else r for r in rng.sample(old, min(len(old), rng.randint(0, 2)))]
            ctx.count('shared_ids', len(share))
            kind, ext, data, found, recs = recordFile(rng, ctx, maker, share)
            kinds.append(kind)
            old += [r for r in recs if r.kind == 'WOS' and not any(o.id == r.id for o in old)]
            name = 'f{}{}'.format(i, ext)
        p = os.path.join(d, name)
        ctx.write(p, data)
        files[os.path.realpath(p)] = found
        names.append(name)
    total = sum(len(f) for f in files.values())
    Class = mk.GrantCollection if isGrants else mk.RecordCollection
    if n == 1 and (isGrants or rng.random() < 0.8):
        C = Class(os.path.join(d, names[0]))
        got = compare(ctx, C, files, 'file')
        # nothing else is left out
        # (those that cannot be read can be equal in every field, which makes them one)
        ctx.eq(sorted(k for k in got if isGrants or not got[k].bad), sorted((p, l) for p, f in files.items() for l in f if f[l] is not None), 'all')
    else:
        ctx.count('directory')
        cached = rng.random() < 0.4
        C = Class(d, cached=cached) if cached else Class(d)
        compare(ctx, C, files, 'directory')
        if cached:
            ctx.count('cached')
            again = Class(d, cached=True)
            compare(ctx, again, files, 'cached directory')
            ctx.eq(sorted(place(R) for R in again), sorted(place(R) for R in C), 'cached-places')
    members = list(C)
    members.sort(key=place)
    if total > 2:
        ctx.sig(sorted((k, sorted(v)) for k, v in files.items()), len(members), isGrants)
        ctx.sample({'files': names, 'lines': {os.path.basename(k): sorted(v) for k, v in files.items()}, 'read': len(members)})
    before = {place(R) for R in members}
    how = rng.choice(['copy', 'pickle', 'subset', 'union', 'given', 'good'])
    if how == 'copy':
        ctx.count('copies')
        D = C.copy()
        compare(ctx, D, files, 'copy')
        ctx.eq({place(R) for R in D}, before, 'places', 'copy')
        if members:
            R = rng.choice(members)
            ctx.eq(place(R.copy()), place(R), 'places', 'copy of one')
    elif how == 'pickle':
        ctx.count('pickles')
        D = pickle.loads(pickle.dumps(C))
        compare(ctx, D, files, 'pickle')
        ctx.eq({place(R) for R in D}, before, 'places', 'pickle')
    elif how == 'subset':
        ctx.count('subsets')
        keep = [R for R in members if rng.random() < 0.5]
        D = Class(keep, name='sub')
        compare(ctx, D, files, 'subset')
        ctx.eq({place(R) for R in D}, {place(R) for R in keep}, 'places', 'subset')
    elif how == 'union':
        ctx.count('unions')
        a = Class([R for R in members if rng.random() < 0.5], name='a')
        D = a | C
        compare(ctx, D, files, 'union')
        ctx.eq({place(R) for R in D}, before, 'places', 'union')
    elif how == 'good':
        C.dropBadEntries()
        compare(ctx, C, files, 'without the bad')
        ctx.check(all(place(R) in before for R in C), 'places', 'without the bad')
    elif not isGrants:
        # a record made by hand is where its maker says
        ctx.count('given')
        r = {'wos': lambda: gen.wos(rng, maker.pools), 'med': lambda: gen.med(rng, maker.used), 'sco': lambda: gen.sco(rng, maker.used)}[rng.choice(['wos', 'med', 'sco'])]()
        t = {'WOS': mk.WOSRecord, 'Medline': mk.MedlineRecord, 'Scopus': mk.ScopusRecord}[r.kind]
        text = r.text() if rng.random() < 0.7 else r.text()[:-3]
        f, l = rng.choice(['here.txt', '/a/b c', 'x']), rng.randint(1, 10 ** 6)
        R = t(text, sFile=f, sLine=l)
        ctx.eq((R.sourceFile, R.sourceLine), (f, l), 'given')
        ctx.eq((t(text).sourceFile, t(text).sourceLine), ('', 0), 'not-given')
        if R.bad:
            message(ctx, R)
    for R in members:
        if R.bad and not isGrants:
            message(ctx, R)
