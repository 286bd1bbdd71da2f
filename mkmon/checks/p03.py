"""Scopus files: reading, writing and reading again."""
import pickle
from mkmon import gen
from mkmon.ref import rawDict

ID = 'P03'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 20000, 400000
RULE = ('Random Scopus exports of 1-6 records with commas, semicolons, brackets and unicode inside fields, quoted or bare, standard or reordered/reduced headers; read, written '
        'from the collection or a derived one and read again. Non-trivial: a quoted field holding a comma.')
ASSUMPTIONS = ['Double quotes inside a value are doubled, as the format asks; values hold no newlines.', 'Writing uses the standard header; tags outside it are out of scope.']
REQUIRED = ['records_compared', 'comma_fields', 'custom_headers', 'empty_quoted', 'written']


def model(recs, header):
    return {r.id: {k: v for k, v in r.tags.items() if k in header} for r in recs}


def compare(ctx, RC, want, what):
    got = {}
    for R in RC:
        if R.bad:
            ctx.fail(what + '-bad', 'record {!r} is bad: {!r}'.format(R.id, R.error))
            return
        got[R.id] = dict(R.items(raw=True))
        ctx.count('records_compared')
    ctx.check(not RC.bad and not RC.errors, what + '-flag', lambda: 'collection flagged bad: {}'.format(RC.errors))
    ctx.eq(got, want, what)


def case(rng, ctx):
    import metaknowledge as mk
    used = set()
    recs = [gen.sco(rng, used) for _ in range(rng.choice([1, 1, 2, 3, 4, 6]))]
    header = list(gen.SCOPUS_HEADER)
    r = rng.random()
    if r < 0.15:
        rng.shuffle(header)
        ctx.count('custom_headers')
    elif r < 0.3:
        drop = rng.sample([h for h in header if h != 'EID'], rng.randint(1, 2))
        header = [h for h in header if h not in drop]
        ctx.count('custom_headers')
    elif r < 0.4:
        header.insert(rng.randrange(len(header)), 'Access Type')
        for x in recs:
            if rng.random() < 0.7:
                x.tags['Access Type'] = rng.choice(['Open', 'Open, gold'])
        ctx.count('custom_headers')
    eq = rng.random() < 0.3
    if eq:
        ctx.count('empty_quoted')
    text = gen.scoFile(recs, header, quoteAll=rng.random() < 0.3, emptyQuotes=eq)
    if rng.random() < 0.3:
        text = text[:-1]
    p = ctx.write(ctx.path('a.csv'), text)
    want = model(recs, header)
    comma = sum(1 for w in want.values() for v in w.values() if ',' in v)
    ctx.count('comma_fields', comma)
    # exact duplicates of the standard header only: shuffled columns are the same set, so a file must still follow its own order
    if set(header) == set(gen.SCOPUS_HEADER) and header != gen.SCOPUS_HEADER:
        want = None
    RC = mk.RecordCollection(p)
    if want is None:
        return shuffled(ctx, RC, recs, header)
    compare(ctx, RC, want, 'read')
    if comma:
        ctx.sig(sorted((k, sorted(v.items())) for k, v in want.items()))
        ctx.sample({'ids': sorted(want)})
    D = RC
    how = rng.choice(['same', 'copy', 'pickle', 'union', 'list'])
    if how == 'copy':
        D = RC.copy()
    elif how == 'pickle':
        D = pickle.loads(pickle.dumps(RC))
    elif how == 'union':
        D = RC | mk.RecordCollection([RC.peek()], name='o')
    elif how == 'list':
        D = mk.RecordCollection(list(RC), name='o')
    for R in D:
        for t in ('Authors', 'References', 'Year', 'Title', 'authorsFull', 'citations'):
            if rng.random() < 0.3:
                R.get(t)
    q = ctx.path('b.csv')
    D.writeFile(q)
    ctx.count('written')
    wwant = {i: {k: v for k, v in t.items() if k in gen.SCOPUS_HEADER} for i, t in want.items()}
    compare(ctx, mk.RecordCollection(q), wwant, 'rewrite')
    for r in recs[:1]:
        S = mk.ScopusRecord(r.text(header), header=header)
        ctx.eq(dict(S.items(raw=True)), want[r.id], 'record-from-text')
        ctx.check(S == RC.getID(r.id), 'record-equal', 'record built from its text is a different record')


def shuffled(ctx, RC, recs, header):
    want = model(recs, header)
    got = {R.id: dict(R.items(raw=True)) for R in RC}
    ctx.eq(got, want, 'column-order')
