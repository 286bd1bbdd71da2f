"""What citations mean in networks of described Web of Science and Scopus records."""
import collections
from . import gen, ref, rc, standins


def isJournal(c):
    return c.journal in standins.JOURNALS


def nodeId(c, nodeType):
    return {'full': c.id, 'original': c.text, 'author': c.author, 'journal': c.journal, 'year': c.year}[nodeType]


def keep(cites, o, core):
    """The citations the options leave."""
    out = []
    for c in cites:
        if o['nodeType'] != 'full' and not nodeId(c, o['nodeType']):
            continue
        if o['dropNonJournals'] and not isJournal(c):
            continue
        if o['dropAnon'] and c.anonymous:
            continue
        if o['coreOnly'] and c.id not in core:
            continue
        kw = o.get('keyWords')
        if kw:
            kw = [kw] if isinstance(kw, str) else kw
            if any(k.upper() in c.text.upper() for k in kw):
                continue
        out.append(c)
    return out


def coreOf(recs):
    core = collections.defaultdict(list)
    for r in recs:
        core[ref.selfCite(r).id].append(r)
    return core


DEFAULT_CORE = ['id', 'authorsFull', 'year', 'title', 'journal', 'volume', 'beginningPage']


def coreTags(detailedCore):
    if not detailedCore:
        return []
    if detailedCore is True:
        return DEFAULT_CORE
    return [ref.WOS_TAGS.get(t, t.upper() if len(t) == 2 else t) for t in detailedCore]


def allButDOI(c):
    if isinstance(c, gen.SCit):
        return ', '.join([c.id] + [x for x in (c.extraAuthors, c.V, c.issue, c.P, c.misc) if x])
    return ', '.join([c.id] + [x for x in (c.V, c.P, c.misc) if x])


def fieldOf(r, tag):
    if r.kind == 'Scopus':
        return r.tags['EID'] if tag == 'id' else rc.value(r, tag)
    return ref.wosGet(r, tag)


def infoOptions(c, o, core):
    """Every attribute dictionary the node made from this citation may have (count and fullCite apart)."""
    if not o['nodeInfo']:
        return [{}]
    nt = o['nodeType']
    if nt == 'full':
        tags = coreTags(o['detailedCore'])
        if not tags:
            return [{'info': allButDOI(c)}]
        if c.id not in core:
            d = {'MK-ID': 'None', 'info': allButDOI(c), 'inCore': False}
            if o['addCR']:
                d['citations'] = ''
            return [d]
        out = []
        for r in core[c.id]:
            d = {'MK-ID': r.id, 'inCore': True}
            vals = [(t, fieldOf(r, t)) for t in tags]
            if o['detailedCoreAttributes']:
                for t, v in vals:
                    d[t] = '|'.join(sorted(v)) if isinstance(v, list) else v
            else:
                d['info'] = ', '.join((v[0] if isinstance(v, list) else v).replace(',', '') for t, v in vals if isinstance(v, (str, list)))
            if o['addCR']:
                d['citations'] = '|'.join(x.text for x in r.cites)
            out.append(d)
        return out
    if nt == 'journal':
        return [{'info': standins.JOURNALS[c.journal][0] if isJournal(c) else 'None'}]
    return [{'info': nodeId(c, nt)}]


class Want:
    """Nodes with counts and the attribute dictionaries they may have, edges with their attributes."""

    def __init__(self):
        self.count = collections.Counter()
        self.opts = {}
        self.full = collections.defaultdict(set)
        self.edges = {}

    def node(self, c, o, core):
        n = nodeId(c, o['nodeType'])
        self.count[n] += 1
        self.full[n].add(c.text)
        l = self.opts.setdefault(n, [])
        for d in infoOptions(c, o, core):
            if d not in l:
                l.append(d)
        return n

    def judge(self, ctx, g, o, what, counted=True):
        nodes, edges = ref.graphOf(g)
        ctx.eq(set(nodes), set(self.count), 'nodes', what)
        for n, d in nodes.items():
            if n not in self.count:
                continue
            d = dict(d)
            if counted and o['count']:
                ctx.eq(d.pop('count', None), self.count[n], 'node-count', lambda: '{}: node {!r}'.format(what(), n))
            if o['fullInfo']:
                f = d.pop('fullCite', None)
                ctx.check(f in self.full[n], 'full-info', lambda: '{}: node {!r} has fullCite {!r}, not one of {}'.format(what(), n, f, sorted(self.full[n])))
            ok = any(set(d) == set(w) and all(w[k] is None and k == 'info' or (d[k] == w[k] and type(d[k]) is type(w[k])) for k in w) for w in self.opts[n])
            ctx.check(ok, 'node-info', lambda: '{}: node {!r} is {}, may be {}'.format(what(), n, d, self.opts[n]))
        ctx.eq(set(edges), set(self.edges), 'edges', what)
        ctx.eq(edges, self.edges, 'edge-attributes', what)


def options(rng):
    return {
        'nodeType': rng.choice(['full', 'full', 'full', 'original', 'author', 'journal', 'year']),
        'dropAnon': rng.random() < 0.5,
        'nodeInfo': rng.random() < 0.75,
        'fullInfo': rng.random() < 0.4,
        'weighted': rng.random() < 0.7,
        'dropNonJournals': rng.random() < 0.25,
        'count': rng.random() < 0.75,
        'keyWords': rng.choice([None, None, None, None, 'small', ['NATURE', 'glass'], ['P1'], 'v', []]),
        'detailedCore': rng.choice([True, True, False, ['AF', 'PY', 'TI'], ['year', 'title', 'authorsFull', 'DT'], ['UT'], ['SC', 'ID']]),
        'detailedCoreAttributes': rng.random() < 0.3,
        'coreOnly': rng.random() < 0.2,
        'addCR': rng.random() < 0.2,
    }


def scopusRecord(rng, used, pool):
    r = gen.sco(rng, used, hostile=0)
    r.tags['Title'] = gen.words(rng, 1, 5) + (rng.choice([' (part {})', ' ({0}) and ({0}) of it', ' (({}))', ' ({}', ') {}']).format(rng.choice('12A')) if rng.random() < 0.2 else '')
    r.tags['Source title'] = rng.choice(['Nature', 'Cell', 'Hist Glass', 'Soc Networks'])
    r.cites = [c.variant(rng) if rng.random() < 0.3 else c for c in rng.sample(pool, rng.randint(1, min(5, len(pool))))] if rng.random() < 0.85 else []
    return r


def records(rng, ctx, n=None, mutual=0.5, scopus=0):
    """Described Web of Science records (or, with the probability scopus, Scopus records or both), some of which cite each other, and the package's collection of them."""
    import metaknowledge as mk
    n = rng.choice([0, 1, 2, 3, 4, 6, 9]) if n is None else n
    pools = gen.Pools(rng, authors=rng.randint(2, 6), cites=rng.randint(2, 10), keywords=3)
    recs = []
    mutual = rng.random() < mutual
    share = rng.choice([1, 1, 0.5]) if scopus and rng.random() < scopus else 0
    used = set()
    spool = [gen.SCit(*gen.scoRefParts(rng)) if rng.random() < 0.85 else gen.scoUnread(rng) for _ in range(rng.randint(2, 8))] if share else None
    for _ in range(n):
        r = scopusRecord(rng, used, spool) if share and rng.random() < share else gen.wos(rng, pools, authN=rng.choice([(1, 4)] * 4 + [(3, 7)]), missing=rng.choice([0, 0.15]))
        if r.kind == 'WOS' and r.tags.get('AU') and rng.random() < 0.06:
            i = rng.randrange(len(r.tags['AU']))
            r.tags['AU'][i] += ', Jr' if ',' in r.tags['AU'][i] else ''
        elif r.kind == 'WOS' and r.tags.get('AU') and rng.random() < 0.05:
            for t in ('AU', 'AF'):
                if t in r.tags:
                    r.tags[t] = ['[Anonymous]']
            ctx.count('anonymous_records')
        before = [x for x in recs if x.kind == r.kind]
        if mutual and before:
            extra = [ref.selfCite(x) if rng.random() < 0.85 else rng.choice(ref.selfCites(x)) for x in rng.sample(before, min(len(before), rng.randint(0, 3))) if x.kind == 'Scopus' or x.tags.get('AU')]
            if rng.random() < 0.05:
                extra.append(ref.selfCite(r))
            if extra and rng.random() < 0.15:
                extra.append(rng.choice(extra))
            extra = [c.variant(rng) if rng.random() < 0.4 else c for c in extra]
            r.cites = r.cites + extra
            rng.shuffle(r.cites)
            if r.cites and r.kind == 'WOS':
                r.tags['CR'] = [c.text for c in r.cites]
        if r.kind == 'Scopus':
            ctx.count('scopus_records')
            ctx.count('scopus_unread', sum(c.bad for c in r.cites))
            r.tags.pop('References', None)
            if r.cites:
                r.tags['References'] = '; '.join(c.text for c in r.cites)
        recs.append(r)
    twins = [rng.choice(recs) for _ in range(2)] if recs and rng.random() < 0.2 else []
    if twins and twins[0] is not twins[1] and twins[0].kind == twins[1].kind == 'Scopus':
        # two records with the same own citation
        for t in ('Authors', 'Year', 'Source title'):
            twins[1].tags[t] = twins[0].tags[t]
    elif twins and twins[0] is not twins[1] and twins[0].kind == twins[1].kind:
        a, b = twins
        for t in ('AU', 'PY', 'J9', 'VL', 'BP', 'DI', 'TI'):
            if t in a.tags:
                b.tags[t] = list(a.tags[t])
            else:
                b.tags.pop(t, None)
        b.tags['UT'] = b.tags.pop('UT')
        if 'AF' in b.tags:
            if 'AU' in a.tags and 'AF' in a.tags:
                b.tags['AF'] = list(a.tags['AF'])
            else:
                del b.tags['AF']
    out = [(mk.WOSRecord if r.kind == 'WOS' else mk.ScopusRecord)(r.text()) for r in recs]
    assert not any(R.bad for R in out), [R.error for R in out]
    rng.shuffle(out)
    return recs, mk.RecordCollection(out, name='made')
