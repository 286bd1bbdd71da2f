"""Citation statistics count every citation of every record once."""
import collections
from mkmon import citenet as cn, gen, ref

ID = 'P17'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 15000, 250000
RULE = ('Random collections of 0-9 Web of Science or Scopus records with repeated, incomplete and differently spelled citations; citation statistics by work, journal, year and author, and citation tables '
        'of collections and single records with field and value filters, are compared with counts over the described citations. Non-trivial: at least two works.')
ASSUMPTIONS = ['The text shown for a work is any of its spellings.']
REQUIRED = ['by_citation', 'by_journal', 'by_year', 'by_author', 'tables', 'lists', 'field_filters', 'value_filters', 'missing_field', 'no_counts', 'scopus', 'unread', 'record_tables', 'bad_arguments', 'repeated']


class SCit:
    """A Scopus reference: its text, its identity and its parts."""

    def __init__(self, text, key, parts):
        self.text, self.id = text, key
        if parts is None:
            # it cannot be read
            self.author = self.year = self.journal = None
            self.unread = True
            return
        self.unread = False
        self.V, self.P, self.issue = parts['V'], parts['P'], parts['issue']
        a, y, j = key.rsplit(', ', 2)
        self.author, self.year, self.journal = a, int(y), j


def case(rng, ctx):
    import metaknowledge as mk
    if rng.random() < 0.15:
        ctx.count('scopus')
        pool = [SCit(*gen.scoRefParts(rng)) for _ in range(rng.randint(1, 6))]
        for t in rng.sample(['Personal communication', 'The Report, 1999', 'http://x.org/a', 'Smith 2001'], rng.choice([0, 0, 1, 2])):
            pool.append(SCit(t, t, None))
        recs, used = [], set()
        for _ in range(rng.randint(0, 6)):
            r = gen.sco(rng, used, hostile=0)
            r.cites = [rng.choice(pool) for _ in range(rng.randint(0, 4))]
            r.tags.pop('References', None)
            if r.cites:
                r.tags['References'] = '; '.join(c.text for c in r.cites)
            recs.append(r)
        Rs = [mk.ScopusRecord(r.text()) for r in recs]
        RC = mk.RecordCollection(Rs)
        sco = True
    else:
        recs, RC = cn.records(rng, ctx)
        sco = False
    allc = [c for r in recs for c in r.cites]
    texts = collections.defaultdict(set)
    for c in allc:
        texts[c.id].add(c.text)
    byId = collections.Counter(c.id for c in allc)
    ctx.count('unread', sum(1 for c in allc if getattr(c, 'unread', False)))
    ctx.count('repeated', int(len(byId) < len(allc)))
    # statistics
    kt = rng.choice(['citation', 'journal', 'year', 'author'])
    ctx.count('by_' + kt)
    want = byId if kt == 'citation' else collections.Counter(v for v in (getattr(c, kt) for c in allc) if v is not None)
    pf = rng.random() < 0.4
    got = RC.localCiteStats(pandasFriendly=pf, keyType=kt)
    if pf:
        ctx.eq(sorted(got), ['Citations', 'Counts'], 'stats-columns')
        ctx.check(len(got['Citations']) == len(got['Counts']) == len(want), 'stats-length', lambda: '{} against {} works'.format({k: len(v) for k, v in got.items()}, len(want)))
        got = dict(zip(got['Citations'], got['Counts']))
    ctx.eq({(k.ID() if kt == 'citation' else k): v for k, v in got.items()}, dict(want), 'stats', lambda: 'citation statistics by {}'.format(kt))
    # tables
    target = rng.choice(recs) if recs and rng.random() < 0.3 else None
    src = allc if target is None else target.cites
    obj = RC if target is None else RC.getID(target.id)
    ctx.count('record_tables', int(target is not None))
    field = rng.choice([None, None, 'author', 'year', 'journal', 'author', 'year', 'V', 'P', 'DOI', 'nonsense'] if not sco else [None, None, 'author', 'year', 'journal', 'V', 'P', 'issue', 'nonsense'])
    values = None
    kw = {}
    if field is not None:
        ctx.count('field_filters')
        have = [getattr(c, field, None) for c in src]
        ctx.count('missing_field', sum(1 for v in have if v is None))
        if rng.random() < 0.5:
            ctx.count('value_filters')
            pick = [v for v in have if v is not None]
            values = rng.sample(pick, min(len(pick), rng.randint(0, 3))) + rng.choice([[], ['nowhere'], [1492]])
            if len(values) == 1 and rng.random() < 0.7:
                kw['values'] = values[0]
            else:
                kw['values'] = rng.choice([list, tuple, set])(values)
        kw['field'] = field
    keep = [c for c in src if field is None or (getattr(c, field, None) is not None and (values is None or getattr(c, field) in values))]
    ids = collections.Counter(c.id for c in keep)
    what = lambda: 'citations of {} with {}'.format('a record' if target is not None else 'the collection', kw)
    if rng.random() < 0.4:
        ctx.count('lists')
        got = obj.getCitations(pandasFriendly=False, **kw)
        ctx.eq(type(got), list, 'list-type', what)
        if target is None:
            ctx.check(len(got) == len(ids), 'list-repeats', lambda: '{}: {} given, {} works'.format(what(), len(got), len(ids)))
            ctx.eq({c.ID() for c in got}, set(ids), 'list', what)
        else:
            ctx.eq([c.ID() for c in got], [c.id for c in keep], 'record-list', what)
        ctx.check(all(str(c) in texts[c.ID()] for c in got), 'list-text', what)
    else:
        ctx.count('tables')
        counts = target is None
        if counts and rng.random() < 0.3:
            kw['counts'] = counts = False
            ctx.count('no_counts')
        got = obj.getCitations(**kw)
        cols = ['author', 'citeString', 'journal', 'year'] + (['fraction-cites-overall', 'fraction-cites-year', 'num-cites'] if counts else [])
        if ctx.eq(sorted(got), sorted(cols), 'table-columns', what) and ctx.check(all(len(v) == len(ids) for v in got.values()), 'table-rows', lambda: '{}: {} rows for {} works'.format(what(), {k: len(v) for k, v in got.items()}, len(ids))):
            ofText = {t: i for i, ts in texts.items() for t in ts}
            some = {c.id: c for c in keep}
            years = collections.Counter(c.year for c in keep)
            seen = set()
            for i, t in enumerate(got['citeString']):
                k = ofText.get(t)
                if not ctx.check(k in ids and k not in seen, 'table-works', lambda: '{}: row {!r}'.format(what(), t)):
                    continue
                seen.add(k)
                c = some[k]
                row = {x: got[x][i] for x in got if x != 'citeString'}
                w = {'author': c.author, 'year': c.year, 'journal': c.journal}
                if counts:
                    w.update({'num-cites': ids[k], 'fraction-cites-overall': ids[k] / len(keep), 'fraction-cites-year': ids[k] / years[c.year] if not getattr(c, 'unread', False) else None})
                ctx.eq(row, w, 'table-row', lambda: '{}: {!r}'.format(what(), t))
    if rng.random() < 0.02:
        ctx.count('bad_arguments')
        try:
            RC.localCiteStats(keyType='title')
        except TypeError:
            pass
        else:
            ctx.fail('bad-argument', 'key type accepted')
    if len(byId) > 1:
        ctx.sig(sorted(byId.items()), kt, field)
        ctx.sample({'records': len(recs), 'works': len(byId), 'citations': len(allc), 'by': kt, 'filter': repr(kw)})
