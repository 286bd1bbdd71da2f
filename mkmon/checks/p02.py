"""Medline files: reading, writing and reading again."""
import pickle
from mkmon import gen, kinds
from mkmon.ref import rawDict

ID = 'P02'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 20000, 400000
RULE = ('Random Medline files of 1-6 records with author-bound fields before and after authors, folded values, empty continuation lines and latin-1 text; read, written from '
        'the collection or one derived from it, and read again. Non-trivial: a record with an author-bound field or a folded value.')
ASSUMPTIONS = ['No two authors of one record have the same name (known finding, probed separately) and no author is called None.', 'Text is latin-1, the documented encoding.']
REQUIRED = ['records_compared', 'author_bound', 'folded', 'unowned_author_fields', 'written']


def model(recs):
    return {r.id: dict(r.tags) for r in recs}


def compare(ctx, RC, want, what, order=None):
    got = {}
    for R in RC:
        if R.bad:
            ctx.fail(what + '-bad', 'record {!r} is bad: {!r}'.format(R.id, R.error))
            return False
        got[R.id] = rawDict(R)
        ctx.count('records_compared')
    ctx.check(not RC.bad and not RC.errors, what + '-flag', lambda: 'collection flagged bad: {}'.format(RC.errors))
    return ctx.eq(got, want, what)


def case(rng, ctx):
    import metaknowledge as mk
    used = set()
    recs = [gen.med(rng, used, hostile=0.25) for _ in range(rng.choice([1, 1, 2, 3, 4, 6]))]
    for r in recs:
        if rng.random() < 0.3:
            kinds.unusualMed(rng, r)
    want = model(recs)
    ab = sum(len(w.get('AD', [])) + len(w.get('AUID', [])) for w in want.values())
    folded = sum(1 for w in want.values() for v in w.values() for x in v if '\n' in x)
    ctx.count('author_bound', ab)
    ctx.count('folded', folded)
    ctx.count('unowned_author_fields', sum(1 for w in want.values() for x in w.get('AD', []) if x.startswith('None : ')))
    text = gen.medFile(recs, rng.choice(['\n', '']))
    if rng.random() < 0.3:
        text = text.rstrip('\n')     # no newline at the end of the file
        text += '\n' if rng.random() < 0.5 else ''
    p = ctx.write(ctx.path('a.medline'), text.encode('latin-1'))
    RC = mk.RecordCollection(p)
    compare(ctx, RC, want, 'read')
    if ab or folded:
        ctx.sig(sorted((k, sorted(v.items())) for k, v in want.items()))
        ctx.sample({'ids': sorted(want), 'lines': len(text.split('\n'))})
    how = rng.choice(['same', 'sub', 'copy', 'pickle', 'union', 'single'])
    D, dwant = RC, want
    if how == 'sub':
        keep = rng.sample(sorted(want), rng.randint(1, len(want)))
        D = mk.RecordCollection([R for R in RC if R.id in keep], name='sub')
        dwant = {k: want[k] for k in keep}
    elif how == 'copy':
        D = RC.copy()
    elif how == 'pickle':
        D = pickle.loads(pickle.dumps(RC))
    elif how == 'union':
        D = RC | mk.RecordCollection([RC.peek()], name='o')
    for R in D:
        for t in ('AD', 'AUID', 'AU', 'TI', 'AB', 'PMID'):
            if rng.random() < 0.3:
                R.get(t)
    q = ctx.path('b.medline')
    D.writeFile(q)
    ctx.count('written')
    compare(ctx, mk.RecordCollection(q), dwant, 'rewrite')
    for r in recs[:1]:
        S = mk.MedlineRecord(r.text())
        ctx.eq(rawDict(S), want[r.id], 'record-from-text')
        ctx.check(S == RC.getID(r.id), 'record-equal', 'record built from its text is a different record')


def probeSameName(rng, ctx):
    """Two authors of one record with the same name: their affiliations must not multiply when written."""
    import metaknowledge as mk
    text = '\nPMID- 7\nAU  - Li W\nAD  - Univ A\nAU  - Li W\nAD  - Univ B\nTA  - Nature\n\n'
    p = ctx.write(ctx.path('a.medline'), text)
    RC = mk.RecordCollection(p)
    ctx.eq(rawDict(RC.peek())['AD'], ['Li W : Univ A', 'Li W : Univ B'], 'same-name-read')
    RC.writeFile(ctx.path('b.medline'))
    back = rawDict(mk.RecordCollection(ctx.path('b.medline')).peek())
    known = back['AD'] == ['Li W : Univ A', 'Li W : Univ B', 'Li W : Univ A', 'Li W : Univ B']
    if back['AD'] == ['Li W : Univ A', 'Li W : Univ B']:
        return
    ctx.fail('same-name-authors' if known else 'same-name-other', 'AD after write: {}'.format(back['AD']))


PROBES = {'same-name-authors': probeSameName}
