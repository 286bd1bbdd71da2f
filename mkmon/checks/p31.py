"""Every field decodes to the value its format documents, under its tag, its long name and the common names."""
import io
from mkmon import gen, kinds, ref

ID = 'P31'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 25000, 400000
RULE = ('Random records of all four formats with all their documented fields; the value of every tag, long name and common name is compared with a decoder written from the documentation. '
        'Non-trivial: every record.')
ASSUMPTIONS = ['Numbers, dates and months are well-formed.', 'A Medline author has at most one affiliation line (several are a known finding of the format reader).']
REQUIRED = ['fields_wos', 'fields_med', 'fields_sco', 'fields_pro', 'citations', 'absent_fields', 'grants', 'same_grants', 'other_grants', 'bad_grants', 'own_citations', 'own_unread', 'from_files', 'from_dicts']


def plain(v):
    return [plain(x) for x in v[1]] if v[0] in ('list', 'tuple') else v[1]


def case(rng, ctx):
    import metaknowledge as mk
    kind, r, make, want = kinds.one(rng, ctx)
    R = make()
    if rng.random() < 0.3:
        # the other ways to make a record of the same data
        if kind in ('wos', 'med') and rng.random() < 0.5:
            R = type(R)(io.StringIO(r.text()))
            ctx.count('from_files')
        elif not R.bad:
            d = {k: (list(v) if isinstance(v, list) else v) for k, v in R.items(raw=True)}
            R = type(R)(d)
            # the record has its own fields from then on
            d.clear()
            ctx.count('from_dicts')
    if not ctx.check(not R.bad, 'bad', lambda: '{} record bad: {!r}'.format(kind, R.error)):
        return
    ctx.eq(R.id, r.id, 'id', 'record')
    keys = list(want)
    rng.shuffle(keys)
    for k in keys:
        try:
            v = R[k]
        except KeyError:
            ctx.fail('missing', '{} record: no {!r}'.format(kind, k))
            continue
        ctx.eq(kinds.norm(v), want[k], 'value', lambda: '{} field {!r}:'.format(kind, k))
        ctx.count('fields_' + kind)
        if k == 'CR':
            ctx.count('citations', len(v))
            for c, w in zip(v, r.cites):
                for a in ('author', 'year', 'journal', 'V', 'P', 'DOI'):
                    ctx.eq(getattr(c, a), getattr(w, a), 'citation-' + a, lambda: '{!r}'.format(w.text))
        if k in ('GR', 'Funding Details', 'grants'):
            ctx.count('grants', len(v))
            if k != 'grants':
                apart(ctx, kind, v, r.tags[k] if kind == 'med' else r.tags[k].split('; '))
    for k in ('title', 'authorsFull', 'authorsShort', 'year', 'j9', 'journal', 'keywords', 'abstract', 'volume', 'beginningPage', 'DOI', 'AB', 'CR', 'TI', 'nonsense', 'Index Keywords', 'month', 'grants', 'address'):
        if k not in want and not (kind == 'sco' and k in ('citations',)) and not (kind == 'pro' and k in ('beginningPage',)):
            ctx.count('absent_fields')
            ctx.check(k not in R, 'present', lambda: '{} record without {!r} contains it'.format(kind, k))
            ctx.check(R.get(k) is None and R.get(k, 7) == 7, 'default', lambda: '{} record without {!r} gives {!r}'.format(kind, k, R.get(k, 7)))
    if 'title' in want:
        ctx.eq(kinds.norm(R.title), want['title'], 'title-property')
    else:
        ctx.eq(R.title, 'Untitled record', 'title-property')
    a = want.get('authorsFull', want.get('authorsShort'))
    ctx.eq(kinds.norm(R.authors) if R.authors is not None else None, a, 'authors-property')
    if kind == 'sco' and 'References' in r.tags:
        cs = R['References']
        ctx.eq([str(c) for c in cs], r.tags['References'].split('; '), 'scopus-references')
        ctx.check([str(c) for c in R['citations']] == [str(c) for c in cs], 'scopus-citations', 'citations differ from References')
    if kind != 'sco':
        # how others cite the record: its first author, or each of them
        w = lambda k: plain(want[k]) or None if k in want else None
        rest = [str(x) for x in (w('year'), w('j9') or w('title')) if x is not None]
        rest += [p + str(x) for p, x in (('V', w('volume')), ('P', w('beginningPage')), ('DOI ', w('DOI'))) if x is not None]
        au = [a.replace(',', '') for a in w('authorsShort') or []]
        own = R.createCitation()
        ctx.count('own_citations')
        ctx.eq(own.original, ', '.join(au[:1] + rest), 'own-citation', lambda: '{} record'.format(kind))
        each = R.createCitation(multiCite=True)
        ctx.check(isinstance(each, tuple), 'each-type', lambda: repr(type(each)))
        ctx.eq([c.original for c in each], [', '.join([a] + rest) for a in au] or [', '.join(rest)], 'own-citations', lambda: '{} record'.format(kind))
    else:
        # the same in Scopus's own style; what cannot be read as a journal reference still has the year, the title and the journal of the record
        tags = dict(r.tags)
        for k in [k for k in ('Authors', 'Title', 'Year', 'Source title', 'Volume', 'Page start') if rng.random() < 0.15]:
            tags.pop(k, None)
        if rng.random() < 0.3:
            tags['Title'] = rng.choice(['(a) b (c', 'The (1999) x) of', 'Plain', 'A (2001) report, v. (3)'])
        S = type(R)(tags) if tags != r.tags else R
        t = lambda k: tags.get(k) or ''
        au = [a.replace(',', '') for a in t('Authors').split(', ')] if t('Authors') else []
        rest = (t('Title').replace('(', '').replace(')', '') + ' ' if t('Title') else '') + ('({}) '.format(int(t('Year'))) if t('Year') else '') + ''.join(t(k) + ', ' for k in ('Source title', 'Volume') if t(k)) + (
            'PP. ' + t('Page start') if t('Page start') else '')
        own = S.createCitation()
        each = S.createCitation(multiCite=True)
        ctx.check(isinstance(each, tuple), 'each-type', lambda: repr(type(each)))
        ctx.count('own_citations')
        ctx.eq(own.original, (au[0] + ', ' if au else '') + rest, 'own-citation', lambda: 'scopus record')
        ctx.eq([c.original for c in each], [a + ', ' + rest for a in au] or [rest], 'own-citations', lambda: 'scopus record')
        for c in (own,) + tuple(each):
            if c.bad:
                ctx.count('own_unread')
                ctx.eq((c.year, c.name, c.journal), (int(t('Year') or 0), t('Title').upper(), t('Source title').upper()), 'own-unread', lambda: 'own citation {!r}:'.format(c.original))
            elif t('Year'):
                ctx.eq(c.year, int(t('Year')), 'own-year', lambda: 'own citation {!r}:'.format(c.original))
    ctx.sig(kind, r.id, len(want))
    ctx.sample({'kind': kind, 'id': r.id, 'fields': sorted(want)[:12]})


def apart(ctx, kind, gs, texts):
    """Grants are one when their texts are, and two when their number, code or country (or, without a number, their agency) differ"""
    key = []
    for t in texts:
        d = dict((kinds.medGrant if kind == 'med' else kinds.scoGrant)(t)[2])
        d = {k: v[1] for k, v in d.items()}
        key.append(tuple(d.get(x, '') for x in (('number', 'code', 'country') if 'number' in d else ('code', 'agency', 'country') if kind == 'med' else ('code', 'agencyCode', 'agency'))))
    for g, t in zip(gs, texts):
        # only a Medline grant can be too short to be one
        bad = kind == 'med' and '/' not in t
        ctx.count('bad_grants', int(bad))
        if bad:
            # the whole text is kept, as the country
            ctx.check(dict(g.items()) == {'country': t} or dict(g.items()) == {'country': t, 'number': ''}, 'bad-grant-fields', lambda: '{!r}: {}'.format(t, dict(g.items())))
        ctx.check(bool(g.bad) == bad and (g.error is not None) == bad, 'bad-grant', lambda: 'the grant of {!r} is bad: {}, error {!r}'.format(t, g.bad, g.error))
    for i, a in enumerate(gs):
        for j in range(i):
            b = gs[j]
            if texts[i] == texts[j]:
                ctx.check(a == b and hash(a) == hash(b) and a.id == b.id, 'one-grant', lambda: 'two grants from {!r}'.format(texts[i]))
                ctx.count('same_grants')
            elif key[i] != key[j] and '-' not in texts[i] + texts[j]:
                ctx.check(a != b and len({a, b}) == 2, 'two-grants', lambda: 'one grant of {!r} and {!r}'.format(texts[i], texts[j]))
                ctx.count('other_grants')


def probeAffiliations(rng, ctx):
    """Two affiliation lines of one author: both are affiliations of that author."""
    import metaknowledge as mk
    text = '\nPMID- 7\nAU  - Li W\nAD  - Univ A\nAD  - Univ B\nTA  - Nature\n\n'
    R = mk.RecordCollection(ctx.write(ctx.path('a.medline'), text)).peek()
    got = R['AD']
    if got != {'Li W': ['Univ A', 'Univ B']}:
        ctx.fail('several-affiliations' if got == {'Li W': ['Univ B']} else 'several-affiliations-other', 'AD of two lines: {}'.format(got))


PROBES = {'several-affiliations': probeAffiliations}
