"""Counts, ranks, time series, co-occurrences and glimpses of fields agree with the records."""
import collections
import csv
import os
import re
from mkmon import gen, rc, ref

ID = 'P16'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 15000, 250000
RULE = ('Random collections of 0-9 records of three formats; ranked series, time series, co-occurrence counts and glimpses of random fields with random options, lists, tables and files, are compared with '
        'counts over the described records. Non-trivial: at least three distinct values.')
ASSUMPTIONS = ['Values with equal counts, or equal years, come in any order.', 'An empty list to limit to means no limit.']
REQUIRED = ['ranked', 'time', 'cooccurrence', 'glimpse', 'files', 'limited', 'ascending', 'tables', 'ranks', 'counts', 'ties', 'records_by_year', 'several_years', 'sized', 'tables_drawn', 'bad_arguments']


def key(v):
    """Comparable form of a value, of the package or described."""
    if isinstance(v, gen.Cit):
        return v.id
    if hasattr(v, 'ID') and hasattr(v, 'isAnonymous'):
        return v.ID()
    return v


def readCsv(p):
    with open(p, newline='', encoding='utf-8') as f:
        return list(csv.reader(f))


def denseRanks(counts):
    order = sorted(set(counts), reverse=True)
    return {c: i + 1 for i, c in enumerate(order)}


def table(ctx, RC, lines, wants, width, height, n):
    """The compact glimpse: a table as wide as the terminal, with a column of ranks and values for every field"""
    tell = lambda: repr(lines)
    if not ctx.check(re.match(r'\+RecordCollection glimpse made at: \d{4}-\d\d-\d\d \d\d:\d\d:\d\d\+*$', lines[0]) is not None and lines[1].rstrip('+|') == '|{} Records from {}'.format(n, RC.name[:30]), 'table-head', tell):
        return
    at = 3 if 'independent' in lines[2] else 4
    ctx.check(''.join(l.strip('|+') + ' ' for l in lines[2:at]).split() == 'Columns are ranked by num. of occurrences and are independent of one another'.split(), 'table-head', tell)
    ctx.check(len(lines) <= height, 'table-high', lambda: '{} lines in {}'.format(len(lines), height))
    cells = lines[at][1:-1].split('+')
    if not ctx.eq([c.strip('-') for c in cells], list(wants), 'table-titles'):
        return
    ctx.eq({len(l) for l in lines}, {width}, 'table-wide', tell)
    rows = lines[at + 1:]
    ctx.check(len(rows) >= height - 9, 'table-short', lambda: '{} rows in {} lines'.format(len(rows), height))
    pos = 1
    for c, (title, (byText, ranks)) in zip(cells, wants.items()):
        got = [l[pos:pos + len(c)] for l in rows]
        ctx.check(all(l[pos - 1] == '|' and l[pos + len(c)] == '|' for l in rows), 'table-columns', tell)
        ctx.eq([g[:2].strip() for g in got], [str(x) for x in (ranks + [-1] * len(got))[:len(got)]], 'table-ranks', lambda: title)
        for g in got:
            w = len(c) - 2
            if g[:2] == '-1':
                ctx.eq(g[2:].strip(), 'NA', 'table-value')
                continue
            cand = {r for x, rs in byText.items() for r in rs if x.rjust(w) == g[2:] or len(x) > w and x[:w - 1] + '.' == g[2:]}
            ctx.check(int(g[:2]) in cand, 'table-value', lambda: '{!r} of {} is {} with ranks {}'.format(g, title, byText, cand))
        pos += len(c) + 1
    ctx.count('tables_drawn')


def case(rng, ctx):
    import metaknowledge as mk
    recs, RC, kind = rc.collection(rng, ctx, kinds=('wos', 'wos', 'wos', 'med', 'sco'))
    keys = rc.keysFor(rng, kind) if kind != 'mixed' else ['authorsFull', 'authorsShort', 'title', 'year', 'keywords', 'j9', 'journal']
    V = lambda r, k: [v for v in ref.asList(rc.value(r, k))]
    tag = rng.choice(keys)
    what = rng.choice(['ranked', 'ranked', 'time', 'time', 'cooccurrence', 'glimpse'])
    ctx.count(what)
    cite = tag in ('CR', 'citations')
    texts = {c.text: c.id for r in recs for c in getattr(r, 'cites', [])}
    asKey = lambda s: texts.get(s, s) if cite else s
    distinct = {key(v) for r in recs for v in V(r, tag)}
    limit = None
    if rng.random() < 0.25 and what in ('ranked', 'time'):
        pool = [v for r in recs for v in V(r, tag)]
        limit = [mk.Citation(v.text) if isinstance(v, gen.Cit) else v for v in rng.sample(pool, min(len(pool), rng.randint(1, 3)))] + [rng.choice(['nothing', 12345])]
        limit = rng.choice([list, tuple, set])(limit)
        ctx.count('limited')
    lk = None if limit is None else {key(v) for v in limit}
    ok = lambda v: lk is None or key(v) in lk
    out = ctx.path('series.csv') if rng.random() < 0.3 else None
    great = rng.random() < 0.6
    ctx.count('ascending', int(not great))
    if what == 'ranked':
        counts = collections.Counter(key(v) for r in recs for v in V(r, tag) if ok(v))
        ctx.count('ties', int(len(set(counts.values())) < len(counts)))
        mode = rng.choice(['table', 'counts', 'ranks', 'values'])
        kw = {'table': {}, 'counts': dict(pandasMode=False), 'ranks': dict(pandasMode=False, giveCounts=False, giveRanks=True), 'values': dict(pandasMode=False, giveCounts=False)}[mode]
        got = RC.rankedSeries(tag, outputFile=out, greatestFirst=great, limitTo=limit, **kw)
        ranks = denseRanks(counts.values())
        desc = lambda: 'ranked series of {} ({}, greatestFirst {}, limitTo {})'.format(tag, mode, great, limit)
        if mode == 'table':
            ctx.count('tables')
            if not ctx.eq(sorted(got), ['count', 'entry', 'rank'], 'table-columns', desc):
                return
            rows = [(key(e), c, r) for e, c, r in zip(got['entry'], got['count'], got['rank'])]
            ctx.check(len(got['entry']) == len(got['count']) == len(got['rank']), 'table-lengths', desc)
            ctx.check(all(ranks.get(c) == r for _, c, r in rows), 'table-ranks', lambda: '{}: {}'.format(desc(), rows))
            pairs = [(e, c) for e, c, _ in rows]
        elif mode == 'counts':
            ctx.count('counts')
            pairs = [(key(e), c) for e, c in got]
        elif mode == 'ranks':
            ctx.count('ranks')
            rows = [(key(e), r) for e, r in got]
            ctx.check(all(ranks[counts[e]] == r for e, r in rows if e in counts), 'ranks', lambda: '{}: {} for counts {}'.format(desc(), rows, counts))
            pairs = [(e, counts.get(e)) for e, _ in rows]
        else:
            pairs = [(key(e), counts.get(key(e))) for e in got]
        ctx.check(len(pairs) == len(counts) and {e: c for e, c in pairs} == dict(counts), 'ranked-counts', lambda: '{}: {} instead of {}'.format(desc(), pairs, counts))
        seq = [c for _, c in pairs if c is not None]
        ctx.check(seq == sorted(seq, reverse=great), 'ranked-order', lambda: '{}: {}'.format(desc(), seq))
        if out:
            ctx.count('files')
            rows = readCsv(out)
            ctx.eq(rows[0], [tag, 'count'], 'file-header')
            ctx.eq(collections.Counter((str(asKey(a)), b) for a, b in rows[1:]), collections.Counter((str(e), str(c)) for e, c in counts.items()), 'file-rows', desc)
            seq = [int(b) for _, b in rows[1:]]
            ctx.check(seq == sorted(seq, reverse=great), 'file-order', lambda: '{}: {}'.format(desc(), seq))
    elif what == 'time':
        if rng.random() < 0.2:
            tag = None
            ctx.count('records_by_year')
            counts = collections.Counter((r.id, rc.value(r, 'year')) for r in recs if rc.value(r, 'year') is not None)
            k2 = lambda e: e.id
            limit = None
            asKey = None
        else:
            counts = collections.Counter((key(v), rc.value(r, 'year')) for r in recs if rc.value(r, 'year') is not None for v in V(r, tag) if ok(v))
            k2 = key
        ctx.count('several_years', int(len({e for e, _ in counts}) < len(counts)))
        mode = rng.choice(['table', 'years', 'values'])
        kw = {'table': {}, 'years': dict(pandasMode=False), 'values': dict(pandasMode=False, giveYears=False)}[mode]
        if limit is not None:
            kw['limitTo'] = limit
        got = RC.timeSeries(tag, outputFile=out, greatestFirst=great, **kw)
        desc = lambda: 'time series of {} ({}, greatestFirst {}, limitTo {})'.format(tag, mode, great, limit)
        if mode == 'table':
            if not ctx.eq(sorted(got), ['count', 'entry', 'year'], 'table-columns', desc):
                return
            ctx.check(len(got['entry']) == len(got['count']) == len(got['year']), 'table-lengths', desc)
            rows = [((k2(e), y), c) for e, y, c in zip(got['entry'], got['year'], got['count'])]
            ctx.check(len(rows) == len(counts) and dict(rows) == dict(counts), 'time-counts', lambda: '{}: {} instead of {}'.format(desc(), rows, counts))
            years = got['year']
        elif mode == 'years':
            ctx.eq(collections.Counter((k2(e), y) for e, y in got), collections.Counter(list(counts)), 'time-pairs', desc)
            years = [y for _, y in got]
        else:
            ctx.eq(collections.Counter(k2(e) for e in got), collections.Counter(e for e, _ in counts), 'time-values', desc)
            years = []
        ctx.check(years == sorted(years, reverse=great), 'time-order', lambda: '{}: {}'.format(desc(), years))
        if out:
            ctx.count('files')
            rows = readCsv(out)
            ctx.eq(rows[0], [str(tag), 'years'], 'file-header')
            if tag is not None:
                w = collections.defaultdict(list)
                for e, y in counts:
                    w[str(e)].append(str(y))
                ctx.eq({str(asKey(a)): sorted(b.split('|')) for a, b in rows[1:]}, {e: sorted(l) for e, l in w.items()}, 'file-rows', desc)
            else:
                ctx.eq(len(rows) - 1, len(counts), 'file-rows', desc)
    elif what == 'cooccurrence':
        others = rng.sample(keys, min(len(keys), rng.randint(1, 3)))
        w = {}
        for r in recs:
            ks = V(r, tag)
            for k in ks:
                w.setdefault(key(k), collections.Counter())
            for t in others:
                for v in V(r, t):
                    for k in ks:
                        w[key(k)][key(v)] += 1
        got = RC.cooccurrenceCounts(tag, *others)
        ctx.eq({key(k): {key(a): b for a, b in d.items()} for k, d in got.items()}, {k: dict(d) for k, d in w.items()}, 'cooccurrence', lambda: 'of {} with {}:'.format(tag, others))
        if rng.random() < 0.1:
            ctx.count('bad_arguments')
            for call in (lambda: RC.cooccurrenceCounts(3, tag), lambda: RC.cooccurrenceCounts(tag, None), lambda: RC.cooccurrenceCounts(tag, tag, 3)):
                try:
                    call()
                except mk.TagError:
                    pass
                else:
                    ctx.fail('bad-argument', 'accepted')
            try:
                RC.rankedSeries(tag, giveRanks=True)
            except mk.mkException:
                pass
            else:
                ctx.fail('bad-argument', 'counts and ranks accepted')
    else:
        tags = rng.sample(keys, min(len(keys), rng.randint(1, 3))) if rng.random() < 0.7 or any(r.kind == 'Scopus' for r in recs) else []
        RC.name = rng.choice(['made', 'files-from-/data/' + 'my records ' * 8])
        size = {}
        if rng.random() < 0.6:
            # the size of the terminal
            size = {'COLUMNS': str(rng.choice([1, 20, 54, 55, 56, 57, 58, 59, 74, 75, 76, 77, 80, 81, 120, 201])), 'LINES': str(rng.choice([1, 5, 6, 7, 8, 9, 10, 12, 24, 50]))}
            ctx.count('sized')
        width = int(size.get('COLUMNS', 80))
        height = int(size.get('LINES', 24))
        # smaller ones are taken for the usual one
        width = 80 if width < 55 else width
        height = 24 if height < 6 else height
        old = {k: os.environ.pop(k, None) for k in ('COLUMNS', 'LINES')}
        os.environ.update(size or {'COLUMNS': '80', 'LINES': '24'})
        try:
            text = RC.glimpse(*tags)
            compact = RC.glimpse(*tags, compact=True).split('\n')
        finally:
            for k, v in old.items():
                os.environ.pop(k)
                if v is not None:
                    os.environ[k] = v
        lines = text.split('\n')
        ctx.check(re.match(r'RecordCollection glimpse made at: \d{4}-\d\d-\d\d \d\d:\d\d:\d\d$', lines[0]) is not None, 'glimpse-head', lines[0])
        ctx.eq(lines[1], '{} Records from {}'.format(len(recs), RC.name[:30]), 'glimpse-size')
        sections = collections.OrderedDict((t, t) for t in tags) or collections.OrderedDict([('Top Authors', 'authorsFull'), ('Top Journals', 'journal'), ('Top Cited', 'citations')])
        pos = 2
        shownRows = []
        wants = {}
        for title, t in sections.items():
            counts = collections.Counter(key(v) for r in recs for v in V(r, t))
            ranks = denseRanks(counts.values())
            shown = {}
            byText = collections.defaultdict(set)
            for r in recs:
                for v in V(r, t):
                    byText[ref.strVal(v)].add(key(v))
            if not ctx.check(lines[pos:pos + 2] == ['', title], 'glimpse-section', lambda: 'section {!r} not at line {}: {!r}'.format(title, pos, text)):
                return
            pos += 2
            prev = 0
            n = 0
            # values may hold line ends; their lines are read back by prefix
            if any('\n' in s for s in byText):
                return
            while pos < len(lines) and lines[pos] != '':
                m = re.match(r'(\d+) (.*)$', lines[pos])
                if not ctx.check(m is not None, 'glimpse-line', lambda: repr(lines[pos])):
                    return
                rank, s = int(m.group(1)), m.group(2)
                ctx.check(len(lines[pos]) <= width, 'glimpse-wide', lambda: '{!r} in {} columns'.format(lines[pos], width))
                cand = {k for x, ks in byText.items() for k in ks if x == s or x.startswith(s) and len(lines[pos]) == width}
                ctx.check(any(ranks[counts[k]] == rank for k in cand), 'glimpse-rank', lambda: '{!r} is shown with rank {}, expected {}'.format(s, rank, {k: ranks[counts[k]] for k in cand}))
                ctx.check(rank >= prev, 'glimpse-order', lambda: text)
                prev = rank
                n += 1
                pos += 1
            wants[title] = {x: sorted({ranks[counts[k]] for k in ks}) for x, ks in byText.items()}, sorted(ranks[c] for c in counts.values())
            shownRows.append((n, len(counts)))
        # all there is or all that fits, which is the same for all
        k = max(n for n, _ in shownRows)
        ctx.check(all(n == min(k, c) for n, c in shownRows), 'glimpse-rows', lambda: 'shown and there {} in {} lines'.format(shownRows, height))
        ctx.check(all(n == c or n >= (height - 8) // 2 for n, c in shownRows), 'glimpse-rows', lambda: 'shown and there {} in {} lines'.format(shownRows, height))
        table(ctx, RC, compact, wants, width, height, len(recs))
        ctx.check(all(l.startswith('|') for l in compact[1:]) or any('\n' in ref.strVal(v) for r in recs for t in sections.values() for v in V(r, t)), 'glimpse-compact', lambda: repr(compact))
    if len(distinct) > 2:
        ctx.sig(what, tag, sorted(map(str, distinct)), great, len(recs))
        ctx.sample({'what': what, 'tag': tag, 'records': len(recs), 'kind': kind, 'values': len(distinct)})
