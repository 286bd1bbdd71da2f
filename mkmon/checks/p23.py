"""Filters of collections keep exactly the records they describe."""
from mkmon import citenet as cn, gen, queries as q, rc, ref

ID = 'P23'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 20000, 300000
RULE = ('Random collections of 0-9 records, some of them malformed; filters by years (bounds often on a year that occurs), by citations (every part, both ways, blank and matching keys) and by publication type '
        'are compared with the same choice made over the described records, and the collection they were asked of with what it was. Non-trivial: the filter keeps some records and drops others.')
ASSUMPTIONS = ['The key of a filter on the uncategorised part is part of it or of no citation at all.', 'Publication types are those of Web of Science.']
REQUIRED = ['years', 'year_bounds', 'missing_years', 'refused', 'citations', 'reversed', 'case_sensitive', 'blank_key', 'types', 'inverted', 'keep_bad', 'dropped_bad', 'no_type', 'mixed', 'kept_apart'] + \
           ['by_' + f for f in ('all', 'author', 'year', 'journal', 'V', 'P', 'misc', 'anonymous', 'bad')]


def ids(RC):
    return sorted(R.id for R in RC)


def bads(rng, ctx, RC):
    """Put some malformed records into the collection"""
    import metaknowledge as mk
    out = []
    for i in range(rng.choice([0, 0, 0, 1, 2])):
        R = mk.WOSRecord(rng.choice(['PT J\nAU Nobody, N\nPY 2001\nUT WOS:BAD{}\n', 'AU Nobody, N\nUT WOS:BAD{}\n', 'PT B\nCR Some One, 2001, J CHEM PHYS\nUT WOS:BAD{}\n']).format(i))
        assert R.bad
        RC.add(R)
        out.append(R)
    return out


def years(rng, ctx):
    recs, RC, kind = rc.collection(rng, ctx)
    ctx.count('mixed', int(len({r.kind for r in recs}) > 1))
    if rng.random() < 0.4:
        for R in list(RC):
            r = [x for x in recs if x.id == R.id]
            if r and r[0].kind == 'WOS' and rng.random() < 0.2 and 'PY' in r[0].tags:
                import metaknowledge as mk
                RC.remove(R)
                del r[0].tags['PY']
                RC.add(mk.WOSRecord(r[0].text()))
    ys = {r.id: rc.value(r, 'year') for r in recs}
    have = [y for y in ys.values() if y is not None]
    pick = lambda: rng.choice(have) + rng.choice([0, 0, 0, 1, -1]) if have and rng.random() < 0.9 else rng.randint(1900, 2020)
    a, b = pick(), pick()
    if a > b and rng.random() < 0.8:
        a, b = b, a
    ctx.count('years')
    ctx.count('year_bounds', int(a in have or b in have))
    missing = len(have) < len(ys)
    ctx.count('missing_years', int(missing))
    before, name = ids(RC), RC.name
    idOf = {R.id: R for R in RC}
    drop = rng.random() < 0.7
    try:
        got = RC.yearSplit(a, b, dropMissingYears=drop)
    except TypeError:
        ctx.check(missing and not drop, 'year-refused', lambda: 'yearSplit({}, {}, {}) of {}'.format(a, b, drop, ys))
        ctx.count('refused')
        return
    ctx.check(drop or not missing, 'year-not-refused', lambda: 'yearSplit({}, {}, {}) of {}'.format(a, b, drop, ys))
    want = sorted(i for i, y in ys.items() if y is not None and a <= y <= b)
    key = lambda i: i[4:] if i.startswith('EID:') else i
    ctx.eq(sorted(map(key, ids(got))), sorted(map(key, want)), 'year-split', lambda: 'yearSplit({}, {}) of {}'.format(a, b, ys))
    ctx.check(all(idOf.get(R.id) is R for R in got), 'year-records', 'records of the result are not those of the collection')
    ctx.check(ids(RC) == before and RC.name == name, 'changed', 'yearSplit changed the collection')
    if rng.random() < 0.2:
        q.apart(rng, ctx, RC, got, 'not-apart', 'yearSplit({}, {})'.format(a, b))
    if 0 < len(want) < len(recs):
        ctx.sig('year', a, b, sorted(ys.items(), key=str))


def citations(rng, ctx):
    recs, RC = cn.records(rng, ctx)
    bad = bads(rng, ctx, RC) if rng.random() < 0.2 else []
    cites = [c for r in recs for c in r.cites]
    f = rng.choice(['all', 'author', 'year', 'journal', 'V', 'P', 'misc', 'anonymous', 'bad'])
    ctx.count('by_' + f)
    ctx.count('citations')
    part = (lambda c: c.text) if f == 'all' else (lambda c: getattr(c, f)) if f in ('author', 'year', 'journal', 'V', 'P', 'misc') else (lambda c: '')
    vals = [part(c) for c in cites if part(c) is not None]
    kw = {}
    case = f == 'all' and rng.random() < 0.3
    blank = rng.random() < 0.12
    if blank:
        keyS = ''
        ctx.count('blank_key')
    elif f == 'year':
        keyS = rng.choice(vals) + rng.choice([0, 0, 0, 1]) if vals else 2001
        keyS = rng.choice([str, int])(keyS)
    else:
        v = rng.choice(vals) if vals and rng.random() < 0.85 else 'q*no*q'
        i = rng.randrange(len(v)) if v else 0
        keyS = v[i:i + rng.randint(1, 12)] or 'q*no*q'
        if f == 'misc' and v != 'q*no*q' and any(keyS.upper() in c.text.upper() and keyS.upper() not in (c.misc or '').upper() for c in cites):
            keyS = 'q*no*q'
        if rng.random() < 0.4:
            keyS = rng.choice([str.upper, str.lower, str.title])(keyS)
    if f != 'all' or rng.random() < 0.5:
        kw['field'] = f
    if case:
        kw['caseSensitive'] = True
        ctx.count('case_sensitive')
    rev = rng.random() < 0.35
    if rev:
        kw['reverse'] = True
        ctx.count('reversed')

    def match(c):
        if f == 'anonymous':
            return c.anonymous
        if f == 'bad':
            return c.bad
        v = part(c)
        if v is None:
            return False
        if f == 'year':
            return blank or int(keyS) == v
        if case:
            return keyS in v
        return keyS.upper() in v.upper()

    extra = {R.id: (R.get('citations') or []) for R in bad}
    hit = {r.id for r in recs if any(match(c) for c in r.cites)}
    if bad:
        return_ = RC.citeFilter(keyS, **kw)
        got = set(ids(return_)) - set(extra)
    else:
        return_ = RC.citeFilter(keyS, **kw) if rng.random() < 0.8 or not blank else RC.citeFilter(**kw)
        got = set(ids(return_))
        ctx.check(len(return_) == len(got), 'cite-filter-repeats', 'a record is there twice')
    want = {r.id for r in recs} - hit if rev else hit
    ctx.eq(got, want, 'cite-filter', lambda: 'citeFilter({!r}, {}) of {}'.format(keyS, kw, {r.id: [c.text for c in r.cites] for r in recs}))
    ctx.check({R.id for R in RC} == {r.id for r in recs} | set(extra), 'changed', 'citeFilter changed the collection')
    if rng.random() < 0.2:
        q.apart(rng, ctx, RC, return_, 'not-apart', lambda: 'citeFilter({!r}, {})'.format(keyS, kw))
    if 0 < len(want) < len(recs):
        ctx.sig('cite', f, str(keyS), sorted(kw), sorted(want))


def types(rng, ctx):
    import metaknowledge as mk
    pools = gen.Pools(rng, authors=4, cites=4, keywords=3)
    recs = [gen.wos(rng, pools) for _ in range(rng.randint(0, 7))]
    for r in recs:
        if rng.random() < 0.5:
            r.tags['PT'] = [rng.choice('JBSP')]
    RC = mk.RecordCollection([mk.WOSRecord(r.text()) for r in recs])
    if rng.random() < 0.3 and recs:
        R = mk.WOSRecord({'UT': ['WOS:NOPT'], 'TI': ['No type']})
        RC.add(R)
        ctx.count('no_type')
        recs = recs + [type('N', (), {'id': 'WOS:NOPT', 'tags': {}})]
    bad = bads(rng, ctx, RC)
    kw = {}
    pt = 'J'
    if rng.random() < 0.5:
        pt = rng.choice(['J', 'B', 's', 'P', 'X', 'b'])
        kw['ptVal'] = pt
    drop, inv = True, False
    if rng.random() < 0.5:
        drop = kw['dropBad'] = rng.random() < 0.4
    if rng.random() < 0.4:
        inv = kw['invert'] = rng.random() < 0.7
    ctx.count('types')
    ctx.count('inverted', int(inv))
    ctx.count('keep_bad', int(bool(bad) and not drop))
    ctx.count('dropped_bad', int(bool(bad) and drop))
    ok = lambda t: (t == pt.upper()) != inv
    want = {r.id for r in recs if ok(r.tags.get('PT', [None])[0])}
    if not drop:
        want |= {R.id for R in bad if ok(R.get('PT'))}
    RC.dropNonJournals(**kw)
    ctx.eq({R.id for R in RC}, want, 'types', lambda: 'dropNonJournals({}) of {} and bad {}'.format(kw, {r.id: r.tags.get('PT') for r in recs}, [R.get('PT') for R in bad]))
    if drop:
        ctx.check(not RC.bad and not any(R.bad for R in RC), 'bad-dropped', 'malformed records are left')
    if 0 < len(want) < len(recs):
        ctx.sig('type', sorted(kw.items()), sorted(want))


def case(rng, ctx):
    rng.choice([years, citations, citations, types])(rng, ctx)
