"""Reference spectroscopy counts the cited years."""
import bisect
import collections
from mkmon import citenet as cn, gen, ref

ID = 'P24'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 20000, 300000
RULE = ('Random collections of 0-12 Web of Science records citing works of clustered, scattered, missing and implausible years; spectra with all bounds, dropped years and rank options are compared year by year with '
        'counts over the described citations. Non-trivial: at least two counted years.')
ASSUMPTIONS = ['A citation counts when its year is at least two years before that of the record, or the record has no year.', 'Default bounds leave out years that are not between 1000 and 2100.',
               'Years of equal deviation are ranked in any order.']
REQUIRED = ['spectra', 'bounded', 'half_bounded', 'unbounded', 'dropped_list', 'dropped_one', 'ranked_empty', 'empty_years', 'too_recent', 'no_year', 'implausible', 'record_without_year', 'neighbours', 'nothing_counted', 'negative', 'across_2048']


def case(rng, ctx):
    import metaknowledge as mk
    recs = []
    pools = gen.Pools(rng, authors=4, cites=4, keywords=3)
    base = rng.choice([1950, 1980, 2005, 2046, 1002, 1500])
    span = rng.choice([1, 3, 8, 25])
    for _ in range(rng.choice([0, 1, 2, 4, 8, 12])):
        r = gen.wos(rng, pools)
        r.cites = []
        for _ in range(rng.choice([0, 1, 3, 8, 20])):
            y = base + rng.randint(0, span)
            if rng.random() < 0.06:
                y = rng.choice([2099, 2100, 2101, 1000, 1001, 999, 12, 9999])
                ctx.count('implausible')
            c = gen.cit(rng, complete=0.9)
            a, _, j, v, p, d, m = c.parts
            c = gen.Cit(a, None if c.year is None else y, j, v, p, d, m)
            r.cites.append(c)
        if r.cites:
            r.tags['CR'] = [c.text for c in r.cites]
        else:
            r.tags.pop('CR', None)
        if rng.random() < 0.7:
            r.tags['PY'] = [str(base + rng.randint(0, span + 4))]
        elif rng.random() < 0.4:
            r.tags.pop('PY', None)
        recs.append(r)
    RC = mk.RecordCollection([mk.WOSRecord(r.text()) for r in recs])
    # what counts
    n = collections.Counter()
    for r in recs:
        y = ref.wosGet(r, 'PY')
        ctx.count('record_without_year', int(y is None))
        for c in r.cites:
            if c.year is None:
                ctx.count('no_year')
            elif y is not None and y < c.year + 2:
                ctx.count('too_recent')
            else:
                n[c.year] += 1
    kw = {}
    lo = hi = None
    near = lambda: rng.choice(sorted(n)) + rng.choice([0, 0, 1, -1, 2, -2, 3, -3]) if n and rng.random() < 0.8 else base + rng.randint(-3, span + 3)
    if rng.random() < 0.5:
        lo = kw['minYear'] = near()
    if rng.random() < 0.5:
        hi = kw['maxYear'] = near()
    drop = set()
    if rng.random() < 0.4:
        drop = {near() for _ in range(rng.randint(0, 4))}
        if len(drop) == 1 and rng.random() < 0.7:
            kw['dropYears'] = list(drop)[0]
            ctx.count('dropped_one')
        else:
            kw['dropYears'] = rng.choice([list, set, tuple])(drop)
            ctx.count('dropped_list')
    rankE = rng.random() < 0.3
    if rankE:
        kw['rankEmptyYears'] = True
        ctx.count('ranked_empty')
    ctx.count('spectra')
    ctx.count('bounded' if lo is not None and hi is not None else 'unbounded' if lo is None and hi is None else 'half_bounded')
    inB = lambda y: (lo is None or y >= lo - 2) and (hi is None or y <= hi + 2)
    a = lo if lo is not None else min((y for y in n if y > 1000 and inB(y)), default=None)
    b = hi if hi is not None else max((y for y in n if y < 2100 and inB(y)), default=None)
    years = [y for y in range(a, b + 1) if y not in drop] if a is not None and b is not None else []
    ctx.count('nothing_counted', int(not n))
    got = RC.rpys(**kw)
    what = lambda: 'rpys({}) of counts {}'.format(kw, dict(sorted(n.items())))
    if not ctx.eq(sorted(got), ['abs-deviation', 'count', 'rank', 'year'], 'columns', what):
        return
    if not ctx.eq(list(got['year']), years, 'years', what):
        return
    ctx.count('across_2048', int(2047 in years and 2048 in years))
    ctx.eq(list(got['count']), [n.get(y, 0) for y in years], 'counts', what)
    ctx.count('empty_years', sum(n.get(y, 0) == 0 for y in years))
    dev = [n.get(y, 0) - sorted(n.get(y + k, 0) for k in range(-2, 3))[2] for y in years]
    ctx.count('negative', int(any(d < 0 for d in dev)))
    ctx.count('neighbours', int(any(n.get(y + k, 0) and y + k not in years for y in years for k in (-2, -1, 1, 2))))
    ctx.eq(list(got['abs-deviation']), dev, 'deviations', what)
    ranks = list(got['rank'])
    shown = [i for i, y in enumerate(years) if rankE or n.get(y, 0)]
    ctx.check(len(ranks) == len(years) and all(ranks[i] == 0 for i in range(len(years)) if i not in set(shown)), 'empty-ranks', lambda: '{}: {}'.format(what(), ranks))
    ctx.check(len({ranks[i] for i in shown}) == len(shown) and all(1 <= ranks[i] <= len(years) for i in shown), 'rank-values', lambda: '{}: {}'.format(what(), ranks))
    order = sorted(dev)
    for i in shown:
        ctx.check(bisect.bisect_left(order, dev[i]) < ranks[i] <= bisect.bisect_right(order, dev[i]), 'rank', lambda: '{}: rank {} of {} with deviation {}'.format(what(), ranks[i], years[i], dev[i]))
    if len([y for y in years if n.get(y)]) > 1:
        ctx.sig(sorted(n.items()), str(sorted(kw.items())))
