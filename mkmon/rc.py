"""Whole collections, as described records and as the package's collection of them."""
from . import gen, ref

KEYS = {
    'wos': ['AU', 'AF', 'TI', 'SO', 'LA', 'DT', 'DE', 'ID', 'AB', 'C1', 'CR', 'NR', 'TC', 'Z9', 'SN', 'J9', 'PD', 'PY', 'VL', 'IS', 'BP', 'EP', 'DI', 'PG', 'WC', 'SC', 'UT', 'PT',
            'authorsFull', 'authorsShort', 'title', 'year', 'keywords', 'citations', 'j9', 'journal', 'month', 'volume', 'beginningPage', 'DOI', 'subjects', 'ZZ'],
    'med': ['AU', 'FAU', 'TI', 'OT', 'MH', 'LA', 'PT', 'PHST', 'AID', 'RN', 'CN', 'TA', 'JT', 'DP', 'VI', 'PG', 'AB', 'authorsFull', 'authorsShort', 'title', 'year', 'keywords', 'j9', 'journal'],
    'sco': ['Authors', 'Title', 'Year', 'Source title', 'Volume', 'Page start', 'Page count', 'Author Keywords', 'Index Keywords', 'Document Type', 'Source', 'Publisher',
            'authorsFull', 'authorsShort', 'title', 'year', 'keywords', 'j9', 'journal', 'volume'],
}
MED_ALIAS = {'authorsFull': 'FAU', 'authorsShort': 'AU', 'title': 'TI', 'keywords': 'OT', 'j9': 'TA', 'journal': 'JT'}
SCO_ALIAS = {'authorsFull': 'Authors', 'authorsShort': 'Authors', 'title': 'Title', 'year': 'Year', 'keywords': 'Index Keywords', 'j9': 'Abbreviated Source Title', 'journal': 'Source title', 'volume': 'Volume', 'beginningPage': 'Page start'}


def value(r, key):
    """The documented value of a field of a described record, None when it has none."""
    if r.kind == 'WOS':
        return ref.wosGet(r, key)
    if r.kind == 'Medline':
        d = r.tags
        if key == 'year':
            return int(d['DP'][0].split(' ')[0]) if 'DP' in d else None
        if key == 'volume':
            return d['VI'][0].split(' ')[0] if 'VI' in d else None
        if key == 'beginningPage':
            if 'PG' not in d:
                return None
            p = d['PG'][0]
            return (p[6:] if p.startswith('suppl ') else p).split(' ')[0].split('-')[0].split(';')[0]
        key = MED_ALIAS.get(key, key)
        return ref.medTyped(key, d[key]) if key in d else None
    key = SCO_ALIAS.get(key, key)
    return ref.scoTyped(key, r.tags[key]) if key in r.tags else None


def strs(r, key):
    return [ref.strVal(v) for v in ref.asList(value(r, key))]


def collection(rng, ctx, n=None, kinds=('wos', 'wos', 'wos', 'med', 'sco'), one=0.7, twist=None, **kw):
    """(described records, RecordCollection, kind of the collection or 'mixed')"""
    import metaknowledge as mk
    n = rng.choice([0, 1, 1, 2, 3, 4, 6, 9]) if n is None else n
    kind = rng.choice(kinds) if rng.random() < one else 'mixed'
    pools = gen.Pools(rng, authors=rng.randint(2, 7), cites=rng.randint(2, 10), keywords=rng.randint(2, 6))
    used = set()
    recs = []
    auth = gen.authorPool(rng, 5)
    for _ in range(n):
        k = kind if kind != 'mixed' else rng.choice(kinds)
        if k == 'wos':
            recs.append(gen.wos(rng, pools, **kw))
        elif k == 'med':
            recs.append(gen.med(rng, used, hostile=0.05, authors=auth))
        else:
            recs.append(gen.sco(rng, used, hostile=0.05))
    if twist:
        twist(recs)
    out = [{'WOS': mk.WOSRecord, 'Medline': mk.MedlineRecord, 'Scopus': mk.ScopusRecord}[r.kind](r.text()) for r in recs]
    assert not any(R.bad for R in out), [R.error for R in out]
    rng.shuffle(out)
    return recs, mk.RecordCollection(out, name='made'), kind


def keysFor(rng, kind):
    return KEYS['wos'] if kind == 'mixed' else KEYS[kind]
