"""Texts prepared for language and burst analysis are those of the records."""
import collections
import csv
import re
from mkmon import gen, rc, ref

ID = 'P32'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 15000, 250000
RULE = ('Random collections of 0-9 records of three formats whose titles and abstracts hold digits, signs, odd spaces, letters of other scripts and copyright statements; word lists by year and text tables with random '
        'cleaning options, dropped words, stemmers, extra columns and files are compared with texts cleaned character by character. Non-trivial: at least two records with words.')
ASSUMPTIONS = ['Words are what stands between spaces; dropped words are single words.', 'The wording of a copyright statement is looked for by heuristics; only that it, and the text before it, are together the abstract is claimed, '
               'and that common statements are found.', 'Runs of white space become one space before signs are removed.']
REQUIRED = ['burst', 'nlp', 'copyright', 'dropped', 'stemmed', 'digits', 'signs', 'odd_spaces', 'files', 'extra_columns', 'repeated_columns', 'no_year', 'no_abstract', 'found_copyright', 'kept_case', 'kept_signs', 'kept_digits', 'kept_spaces', 'lists', 'mixed', 'marks_inside']
SIGNS = ['3', '42', '1.5', '-', 'a-b', "it's", '(x)', 'naïve', '漢字', 'Straße', 'CO2', 'É', 'a_b', '%', '½', '²', 'x\u00a0y', 'and', 'the', 'a', '- -']
COP = [('. (C) 2002 Optical Society of America.', ' (C) 2002 Optical Society of America.'), ('. (c) 1999 Wiley & Sons', ' (c) 1999 Wiley & Sons'), ('. (C) Optical Society', ' (C) Optical Society'), ('. (c) the authors', ' (c) the authors'), ('. &COPY; 2003 X Inc', ' &COPY; 2003 X Inc'), ('. Copyright 2001 Somebody.', ' Copyright 2001 Somebody.'),
       ('. Crown Copyright 2010 Published', ' Crown Copyright 2010 Published'), ('. C 2004 Elsevier', ' C 2004 Elsevier'), ('. 2011 Elsevier B.V. All rights', ' 2011 Elsevier B.V. All rights'), ('. Published by Elsevier Inc', ' Published by Elsevier Inc')]


def isWord(c):
    return c == '_' or c.isalnum()


def isDigit(c):
    return c.isdecimal()


def clean(s, drop, lower, numbers, signs, spaces, newlines=False):
    if drop is not None:
        if newlines:
            s = s.replace('\n', ' ')
        s = ' '.join(t for t in s.split(' ') if t not in drop)
    if spaces:
        out = []
        for c in s:
            if c.isspace():
                if not out or out[-1] != ' ':
                    out.append(' ')
            else:
                out.append(c)
        s = ''.join(out)
    if lower:
        s = s.lower()
    return ''.join(c for c in s if c == ' ' or not (numbers and isDigit(c) or signs and not isWord(c)))


def text(rng):
    ws = [rng.choice(SIGNS) if rng.random() < 0.3 else gen.words(rng, 1, 1) for _ in range(rng.randint(1, 14))]
    s = ws[0]
    for w in ws[1:]:
        s += (' ' if rng.random() < 0.85 else rng.choice(['  ', '   ', ' - '])) + w
    return s.strip() or 'x'


def records(rng, ctx):
    import metaknowledge as mk
    recs, _, kind = rc.collection(rng, ctx)
    for r in recs:
        tags = {'WOS': ('TI', 'AB', 'DE', 'ID'), 'Medline': ('TI', 'AB'), 'Scopus': ('Title', 'Abstract')}[r.kind]
        for t in tags:
            if rng.random() < 0.6:
                v = text(rng)
                if t in ('AB', 'Abstract') and rng.random() < 0.35:
                    end = rng.choice(COP)[0]
                    if rng.random() < 0.25:
                        # a mark that is only part of the text, and the one at its end
                        v = '{}{} {}'.format(v.rstrip('.'), end if rng.random() < 0.6 else rng.choice(COP)[0], text(rng))
                        ctx.count('marks_inside')
                    v = v.rstrip('.') + end
                if t in ('DE', 'ID'):
                    v = '; '.join(x for x in re.split(r'\s{2,}| - ', v.replace(';', ' ')) if x.strip()) or 'k'
                if r.kind == 'Scopus':
                    v = re.sub(' +', ' ', v.replace('"', '').strip()) or 'x'
                    r.tags[t] = v
                elif t in r.tags or t != 'AB' or rng.random() < 0.7:
                    r.tags[t] = [v] if r.kind == 'WOS' and rng.random() < 0.6 or r.kind != 'WOS' or t != 'AB' else [v, text(rng)]
    Rs = [{'WOS': mk.WOSRecord, 'Medline': mk.MedlineRecord, 'Scopus': mk.ScopusRecord}[r.kind](r.text()) for r in recs]
    RC = mk.RecordCollection(Rs, name='made')
    ctx.count('mixed', int(len({r.kind for r in recs}) > 1))
    # what decoding gives is the business of other checks
    return [(r, {'WOS': mk.WOSRecord, 'Medline': mk.MedlineRecord, 'Scopus': mk.ScopusRecord}[r.kind](r.text())) for r in recs], RC, kind


def options(rng, ctx):
    kw, o = {}, dict(lower=True, removeNumbers=True, removeNonWords=True, removeWhitespace=True)
    for k in o:
        if rng.random() < 0.35:
            kw[k] = o[k] = rng.random() < 0.3
    drop = None
    if rng.random() < 0.4:
        drop = rng.sample(['and', 'the', 'a', 'naïve', 'Model', 'theory', 'of', '42', '-', "it's"], rng.randint(0, 5))
        kw['dropList'] = drop
        ctx.count('dropped', int(bool(drop)))
    stem = None
    if rng.random() < 0.3:
        stem = rng.choice([lambda x: x.title(), lambda x: x[:3], lambda x: x + '!', lambda x: 'w'])
        kw['stemmer'] = stem
        ctx.count('stemmed')
    ctx.count('kept_case', int(not o['lower']))
    ctx.count('kept_signs', int(not o['removeNonWords']))
    ctx.count('kept_digits', int(not o['removeNumbers']))
    ctx.count('kept_spaces', int(not o['removeWhitespace']))
    return kw, o, drop, stem


def desc(n, kw):
    return '{}({})'.format(n, {k: v for k, v in kw.items() if k != 'stemmer'})


def see(ctx, s):
    ctx.count('digits', int(any(c.isdigit() for c in s)))
    ctx.count('signs', int(any(not c.isalnum() and not c.isspace() for c in s)))
    ctx.count('odd_spaces', int('  ' in s or '\n' in s or '\u00a0' in s))


def burst(rng, ctx):
    pairs, RC, kind = records(rng, ctx)
    ctx.count('burst')
    kw, o, drop, stem = options(rng, ctx)
    tag = rng.choice({'wos': ['TI', 'AB', 'title', 'abstract', 'keywords', 'DE', 'CR', 'PY', 'ZZ', 'AU'], 'med': ['TI', 'AB', 'title', 'abstract', 'OT', 'FAU'], 'sco': ['Title', 'title', 'abstract', 'Authors']}.get(kind, ['title', 'abstract', 'keywords', 'authorsFull']))
    out = ctx.path('burst.csv') if rng.random() < 0.3 else None
    got = RC.forBurst(tag, outputFile=out, **kw)
    want = collections.Counter()
    for r, f in pairs:
        y, v = f.get('year'), f.get(tag)
        ctx.count('no_year', int(y is None))
        if y is None or v is None:
            continue
        ctx.count('lists', int(isinstance(v, list)))
        s = ' '.join(str(x) for x in v) if isinstance(v, list) else str(v)
        see(ctx, s)
        for t in clean(s, drop, o['lower'], o['removeNumbers'], o['removeNonWords'], o['removeWhitespace']).split(' '):
            if t != '':
                want[(y, stem(t) if stem else t)] += 1
    if not ctx.check(sorted(got) == ['word', 'year'] and len(got['word']) == len(got['year']), 'burst-columns', lambda: str({k: len(v) for k, v in got.items()})):
        return
    ctx.eq(collections.Counter(zip(got['year'], got['word'])), want, 'burst', lambda: desc('forBurst ' + tag, kw))
    if out:
        ctx.count('files')
        with open(out, newline='', encoding='utf-8') as f:
            rows = list(csv.reader(f))
        ctx.eq(collections.Counter(tuple(x) for x in rows), collections.Counter({(str(y), w): n for (y, w), n in want.items()}), 'burst-file', lambda: desc('forBurst ' + tag, kw))
    if len(want) > 1:
        ctx.sig('burst', tag, sorted(want.items()))


def nlp(rng, ctx):
    pairs, RC, kind = records(rng, ctx)
    ctx.count('nlp')
    kw, o, drop, stem = options(rng, ctx)
    cop = rng.random() < 0.4
    if cop:
        kw['removeCopyright'] = True
    extra = []
    if rng.random() < 0.4:
        extra = rng.sample(list(rc.keysFor(rng, kind)), rng.randint(0, 3)) + rng.choice([[], [], ['year'], ['title', 'id'], ['abstract'], ['copyright'] if cop else []])
        if rng.random() < 0.2 and extra:
            extra.append(rng.choice(extra))
            ctx.count('repeated_columns')
        rng.shuffle(extra)
        kw['extraColumns'] = rng.choice([list, tuple])(extra)
        ctx.count('extra_columns')
    out = ctx.path('nlp.csv') if rng.random() < 0.3 else None
    got = RC.forNLP(out, **kw)
    cols = ['id', 'year', 'title', 'keywords', 'abstract'] + (['copyright'] if cop else [])
    own = [c for c in gen.uniq(extra) if c not in cols]
    if not ctx.eq(set(got), set(cols) | set(own), 'nlp-columns', lambda: desc('forNLP', kw)):
        return
    if not ctx.check(all(len(v) == len(pairs) for v in got.values()), 'nlp-lengths', lambda: '{}: {} for {} records'.format(desc('forNLP', kw), {k: len(v) for k, v in got.items()}, len(pairs))):
        return
    rows = {got['id'][i]: {k: v[i] for k, v in got.items()} for i in range(len(pairs))}
    if not ctx.eq(set(rows), {f.id for _, f in pairs}, 'nlp-ids', lambda: desc('forNLP', kw)):
        return
    for r, f in pairs:
        row = rows[f.id]
        ctx.eq(row['year'], f.get('year', ''), 'nlp-year')
        ctx.eq(row['title'], f.get('title', ''), 'nlp-title')
        ctx.eq(row['keywords'], '|'.join(f.get('keywords') or []), 'nlp-keywords')
        for c in own:
            v = f.get(c)
            ctx.eq(row[c], '|'.join(str(x) for x in v) if isinstance(v, list) else '' if v is None else v, 'nlp-extra', lambda: '{} {}'.format(desc('forNLP', kw), c))
        ab = f.get('abstract', '')
        ctx.count('no_abstract', int(not ab))
        see(ctx, ab)
        if cop:
            # the statement and what is before it are the abstract
            flat = clean(ab, drop, False, False, False, o['removeWhitespace'], True)
            c = row['copyright']
            ctx.count('found_copyright', int(c != ''))
            if c != '':
                if not ctx.check(flat.rstrip().endswith(c), 'copyright-part', lambda: '{!r} is not the end of {!r}'.format(c, flat)):
                    continue
                flat = flat.rstrip()[:-len(c)]
            want = clean(flat, None, o['lower'], o['removeNumbers'], o['removeNonWords'], False)
        else:
            want = clean(ab, drop, o['lower'], o['removeNumbers'], o['removeNonWords'], o['removeWhitespace'], True)
        if stem:
            want = ' '.join(stem(t) for t in want.split(' '))
        ctx.eq(row['abstract'], want, 'nlp-abstract', lambda: '{} of {!r}'.format(desc('forNLP', kw), ab))
    if out:
        ctx.count('files')
        with open(out, newline='', encoding='utf-8') as h:
            table = list(csv.reader(h))
        ctx.check(table[0][:4] == ['id', 'year', 'title', 'keywords'] and sorted(table[0]) == sorted(got), 'nlp-file-columns', lambda: str(table[0]))
        ctx.eq(collections.Counter(tuple(sorted(zip(table[0], x))) for x in table[1:]), collections.Counter(tuple(sorted((k, str(v)) for k, v in row.items())) for row in rows.values()), 'nlp-file', lambda: desc('forNLP', kw))
    if len(pairs) > 1:
        ctx.sig('nlp', sorted(map(str, kw.items()))[:3], sorted(map(str, got['abstract'])))


def copyright(rng, ctx):
    import metaknowledge as mk
    pairs, RC, kind = records(rng, ctx)
    ctx.count('copyright')
    got = RC.findProbableCopyright()
    ctx.check(isinstance(got, list), 'copyright-list', lambda: repr(type(got)))
    ctx.check(len(set(got)) == len(got), 'copyright-repeats', lambda: str(got))
    abs_ = [f.get('abstract', '').rstrip() for _, f in pairs]
    for c in got:
        ctx.check(c and any(a.endswith(c) for a in abs_), 'copyright-invented', lambda: '{!r} is the end of no abstract'.format(c))
    for a in abs_:
        for text_, st in COP:
            if a.endswith(text_) and sum(a.count(x) for x in {x[:4] for x, _ in COP}) <= 1 and not re.search(r'[.] ', a[:-len(text_)]):
                ctx.count('found_copyright')
                ctx.check(st in got, 'copyright-missed', lambda: '{!r} of {!r} is not among {}'.format(st, a, got))
    plain = [a for a in abs_ if not re.search('(?i)copy|elsevier|[.] [(]?c|publ', a)]
    ctx.check(len(got) <= len(abs_) - len(plain), 'copyright-too-many', lambda: '{} of {}'.format(got, abs_))
    if got:
        ctx.sig('cop', sorted(got))


def case(rng, ctx):
    rng.choice([burst, burst, nlp, nlp, copyright])(rng, ctx)
