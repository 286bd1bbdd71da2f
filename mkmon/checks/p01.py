"""WOS files: what is read is what the file says, and writing then reading gives it back."""
import io
import pickle
from mkmon import gen
from mkmon.ref import rawDict

ID = 'P01'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 20000, 400000
RULE = ('Random WOS files of 0-8 records whose tags and values hold quotes, unicode line separators, empty values, tag-like text and odd spacing; the collection, and collections '
        'derived from it by set operations, copy, chunk, pickle or selection, are written and read back. Non-trivial: at least one record and one multi-line value.')
ASSUMPTIONS = ['Values hold no newline or carriage return and tags are two characters, as in every WOS file.',
               'Order of records in a file is not part of the property; tag and line order within a record is.']
REQUIRED = ['records_compared', 'derived_written', 'multi_line_values', 'empty_values', 'bytes_compared']


def model(recs):
    return {r.id: {k: list(v) for k, v in r.tags.items()} for r in recs}


def compare(ctx, RC, want, what):
    got = {}
    for R in RC:
        if R.bad:
            ctx.fail(what + '-bad', 'record {!r} is bad: {!r}'.format(R.id, R.error))
            return False
        if R.id in got:
            ctx.fail(what + '-dup', 'two records with ID {!r}'.format(R.id))
        got[R.id] = rawDict(R)
        ctx.count('records_compared')
        if R.id in want:
            ctx.check(list(got[R.id]) == list(want[R.id]), what + '-order', lambda: 'tag order {} expected {}'.format(list(got[R.id]), list(want[R.id])))
    ctx.check(not RC.bad and not RC.errors, what + '-flag', lambda: 'collection flagged bad: {}'.format(RC.errors))
    return ctx.eq(got, want, what)


def case(rng, ctx):
    import metaknowledge as mk
    used = set()
    pools = gen.Pools(rng)
    recs = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 5, 8])):
        recs.append(gen.hostileWos(rng, used) if rng.random() < 0.6 else gen.wos(rng, pools, full=True))
    ids = set()
    recs = [r for r in recs if not (r.id in ids or ids.add(r.id))]
    head = rng.choice(gen.WOS_HEADS)
    sep = rng.choice(['\n', '\n\n', '\n \n'])
    end = rng.choice(['EF', 'EF\n'])
    p = ctx.write(ctx.path('a.isi'), gen.wosFile(recs, head, end, sep))
    RC = mk.RecordCollection(p)
    want = model(recs)
    multi = sum(1 for r in recs for v in r.tags.values() if len(v) > 1)
    ctx.count('multi_line_values', multi)
    ctx.count('empty_values', sum(1 for r in recs for v in r.tags.values() if '' in v))
    compare(ctx, RC, want, 'read')
    if recs and multi:
        ctx.sig(sorted(want.items()))
        ctx.sample({'ids': [r.id for r in recs], 'tags': list(recs[0].tags)})
    for R in RC:
        ctx.eq(R.sourceFile, p, 'source-file')

    # a collection derived from the one read
    how = rng.choice(['same', 'sub', 'copy', 'chunk', 'pickle', 'list', 'union', 'xor', 'pop', 'discard', 'add', 'iterator'])
    if how == 'sub':
        keep = rng.sample(sorted(want), rng.randint(0, len(want)))
        D = mk.RecordCollection([R for R in RC if R.id in keep], name='sub')
        dwant = {k: want[k] for k in keep}
    elif how == 'iterator':
        D, dwant = mk.RecordCollection(iter(list(RC)), name='it'), want
    elif how == 'copy':
        D, dwant = RC.copy(), want
    elif how == 'chunk' and len(want):
        parts = RC.chunk(rng.randint(1, 4))
        D = parts[0]
        dwant = {R.id: want[R.id] for R in D}
    elif how == 'pickle':
        D, dwant = pickle.loads(pickle.dumps(RC)), want
    elif how == 'list':
        D, dwant = mk.RecordCollection(list(RC), name='l'), want
    elif how in ('union', 'xor'):
        half = [R for R in RC if rng.random() < 0.5]
        other = mk.RecordCollection(half, name='half')
        D = (RC | other) if how == 'union' else (RC ^ other)
        hid = {R.id for R in half}
        dwant = want if how == 'union' else {k: v for k, v in want.items() if k not in hid}
    elif how == 'pop' and len(want):
        D = RC.copy()
        gone = D.pop()
        dwant = {k: v for k, v in want.items() if k != gone.id}
    elif how == 'discard' and len(want):
        D = RC.copy()
        x = rng.choice(sorted(want))
        D.discardID(x)
        dwant = {k: v for k, v in want.items() if k != x}
    elif how == 'add':
        extra = gen.hostileWos(rng, used)
        R = mk.WOSRecord(extra.text())
        D = RC.copy()
        D.add(R)
        dwant = dict(want)
        dwant[extra.id] = {k: list(v) for k, v in extra.tags.items()}
    else:
        D, dwant = RC, want
    # look at some values first: reading must not change what is written
    for R in D:
        for t in list(R):
            if rng.random() < 0.2 and t in ('TI', 'AU', 'CR', 'ID', 'DE', 'XX', 'SO'):
                R.get(t)
    if dwant:
        q = ctx.path('b.isi')
        named = rng.random() < 0.9
        if named:
            D.writeFile(q)
        else:
            D.name = rng.choice(['out', 'files-from-/data/my records/', 'out' * 90])
            D.writeFile()
            q = ctx.path(D.name[:200].replace('/', '_') + '.txt')
        ctx.count('derived_written')
        back = mk.RecordCollection(q)
        compare(ctx, back, dwant, 'rewrite')
        # a second generation is written identically up to record order
        back.writeFile(ctx.path('c.isi'))
        a = sorted(ctx.read(q).decode('utf-8').split('\nER\n'))
        b = sorted(ctx.read(ctx.path('c.isi')).decode('utf-8').split('\nER\n'))
        compare(ctx, mk.RecordCollection(ctx.path('c.isi')), dwant, 'third-generation')
        ctx.check(len(a) == len(b), 'stable-size', 'second write has {} parts, first {}'.format(len(b), len(a)))
    # one record through its own text, its bytes and a string buffer
    for r in recs[:2]:
        R = RC.getID(r.id)
        if R is None:
            continue
        ctx.eq(bytes(R), r.text().encode('utf-8'), 'record-bytes')
        ctx.count('bytes_compared')
        f = io.StringIO()
        R.writeRecord(f)
        ctx.eq(f.getvalue(), r.text(), 'record-text')
        S = mk.WOSRecord(f.getvalue())
        ctx.eq(rawDict(S), want[r.id], 'record-from-text')
        ctx.check(S == R and hash(S) == hash(R), 'record-equal', 'record read from its own text differs')
