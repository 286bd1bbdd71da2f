"""Co-author networks connect exactly the authors who wrote a record together."""
import itertools
from mkmon import gen, rc, ref, citenet as cn

ID = 'P12'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 15000, 250000
RULE = ('Random collections of 0-9 records of three formats with shared, repeated and single authors and random options (short names, weights, counts, details, journals only, citation profiles); nodes, '
        'attributes, edges and weights are compared with counts over the described author lists. Non-trivial: the network has an edge.')
ASSUMPTIONS = ['An author\'s details are those of any of the author\'s records.', 'A name listed twice in a record is two occurrences.']
REQUIRED = ['edges', 'short_names', 'unweighted', 'no_counts', 'details', 'details_by_tag', 'profiles', 'journals_only', 'dropped', 'repeated_names', 'alone', 'weights_above_one']

TAGS = ['PY', 'year', 'title', 'TI', 'SC', 'authKeywords', 'AF', 'J9', 'VL', 'subjects', 'citations', 'CR']
DEFAULT = ['year', 'title', 'journal', 'volume', 'beginningPage']


def detail(r, t):
    v = rc.value(r, t)
    if isinstance(v, list):
        return ', '.join(ref.strVal(x).replace(',', '') for x in v)
    return str(v).replace(',', '')


def case(rng, ctx):
    import networkx as nx
    recs, RC, kind = rc.collection(rng, ctx, kinds=('wos', 'wos', 'wos', 'wos', 'med', 'sco'), one=0.9)
    short = rng.random() < 0.3
    weighted, count = rng.random() < 0.7, rng.random() < 0.7
    journals = rng.random() < 0.25 and kind == 'wos'
    profile = rng.random() < 0.3 and kind == 'wos'
    info = rng.choice([False, False, False, True, 'tags'])
    if info == 'tags':
        info = rng.sample(TAGS, rng.randint(1, 4)) if kind == 'wos' else True
    ctx.count('short_names', int(short))
    ctx.count('unweighted', int(not weighted))
    ctx.count('no_counts', int(not count))
    ctx.count('details', int(info is True))
    ctx.count('details_by_tag', int(isinstance(info, list)))
    ctx.count('profiles', int(profile))
    ctx.count('journals_only', int(journals))
    tags = DEFAULT if info is True else [ref.WOS_TAGS.get(t, t) for t in info] if info else []
    counts, opts, profiles, edges = {}, {}, {}, {}
    for r in recs:
        if journals and not cn.isJournal(ref.selfCite(r)):
            ctx.count('dropped')
            continue
        auths = [ref.strVal(v) for v in ref.asList(rc.value(r, 'authorsShort' if short else 'authorsFull'))]
        ctx.count('repeated_names', int(len(set(auths)) != len(auths)))
        ctx.count('alone', int(len(auths) == 1))
        d = {t: detail(r, t) for t in tags}
        for a in auths:
            counts[a] = counts.get(a, 0) + 1
            opts.setdefault(a, []).append(d)
            for c in getattr(r, 'cites', []):
                p = profiles.setdefault(a, {})
                p[c.id] = p.get(c.id, 0) + 1
        for a, b in itertools.combinations(auths, 2):
            e = edges.setdefault(ref.edgeKey(a, b), {})
            if weighted:
                e['weight'] = e.get('weight', 0) + 1
    g = RC.networkCoAuthor(detailedInfo=info, weighted=weighted, dropNonJournals=journals, count=count, useShortNames=short, citeProfile=profile)
    what = lambda: 'co-author network (details {}, weighted {}, journals {}, count {}, short {}, profile {}) of {} records'.format(info, weighted, journals, count, short, profile, kind)
    ctx.check(type(g) is nx.Graph, 'graph-type', lambda: str(type(g)))
    nodes, got = ref.graphOf(g)
    ctx.eq(set(nodes), set(counts), 'nodes', what)
    texts = {c.text: c.id for r in recs for c in getattr(r, 'cites', [])}
    for n, d in nodes.items():
        if n not in counts:
            continue
        d = dict(d)
        if count:
            ctx.eq(d.pop('count', None), counts[n], 'count', lambda: '{}: {!r}'.format(what(), n))
        if profile:
            cs, ns = d.pop('citeProfileCites', None), d.pop('citeProfileCounts', None)
            p = profiles.get(n, {})
            if not p:
                ctx.check(cs == '' and ns == '', 'profile', lambda: '{}: {!r} has profile {!r} {!r}'.format(what(), n, cs, ns))
            elif ctx.check(isinstance(cs, str) and isinstance(ns, str), 'profile', lambda: '{}: {!r} has no profile'.format(what(), n)):
                cs, ns = cs.split('|'), ns.split('|')
                ctx.check(len(cs) == len(ns) == len(p) and {texts.get(c): k for c, k in zip(cs, ns)} == {k: str(v) for k, v in p.items()}, 'profile',
                          lambda: '{}: {!r} has profile {} {}, expected {}'.format(what(), n, cs, ns, p))
        ctx.check(d in opts[n], 'details', lambda: '{}: {!r} has {}, may have {}'.format(what(), n, d, opts[n]))
    ctx.eq(got, edges, 'edges', what)
    ctx.count('edges', len(edges))
    ctx.count('weights_above_one', sum(1 for e in edges.values() if e.get('weight', 0) > 1))
    if edges:
        ctx.sig(sorted(counts.items()), sorted(map(repr, edges)), info, weighted, short, journals, profile)
        ctx.sample({'records': len(recs), 'kind': kind, 'nodes': len(g), 'edges': g.size(), 'details': info})
