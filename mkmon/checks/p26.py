"""Networks of investigators and institutions connect those who share a grant."""
import warnings
from mkmon import grants as gr

ID = 'P26'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 15000, 250000
RULE = ('Random collections of 0-8 grants of five types (NSERC with many name columns and names in one field, NSF with lists, CIHR, Medline, other csv), asked for investigators and institutions with no, one or several '
        'extra fields, other separators, with and without counts and weights; every name list, node and edge is compared with the described grants. Non-trivial: at least two nodes and an edge.')
ASSUMPTIONS = ['Fields that are asked for hold text or lists.', 'Which of the fields a name occurs in is its field is left open.', 'Malformed grants that are equal in every field are one grant, as documented.', 'Blank names may or may not become nodes: a known finding, probed separately.']
REQUIRED = ['nserc', 'cihr', 'nsf', 'csv', 'medline', 'investigators', 'institutions', 'no_tags', 'one_tag', 'many_tags', 'missing_tag', 'separator', 'repeated_name', 'shared_name', 'uncounted', 'unweighted', 'blank', 'no_value',
            'empty', 'listed', 'wide_split']


def clip(s):
    return s.strip()


def pieces(v, sep):
    if v is None:
        return []
    if isinstance(v, list):
        return [clip(x.split(sep)[0]) for x in v]
    return [clip(x) for x in v.split(sep)]


def names(g, tags, sep, inst):
    """[(name, field)] of one grant"""
    kind, f = g
    ask = [] if tags is None else [tags] if isinstance(tags, str) else list(tags)
    if kind == 'nserc':
        for k in f:
            if ('institution' in k.lower() if inst else 'name-' in k.lower()) and k not in ask:
                ask.append(k)
    elif kind == 'nsf':
        own = 'Institution' if inst else 'Investigator'
        ask = ask + [own]
    out = []
    for t in ask:
        if t in f:
            out += [(n, t) for n in pieces(f[t], sep)]
    return out


def make(rng, ctx, mk, i):
    kind = rng.choice(['nserc', 'nserc', 'cihr', 'nsf', 'csv', 'medline'])
    ctx.count(kind)
    pool = gr.NAMES[:rng.choice([2, 4, 9])]
    sep = rng.choice(['; ', ';', ' ;', '|'])

    def some(lo=1, hi=3):
        return sep.join(rng.choice(pool) for _ in range(rng.randint(lo, hi)))

    f = {}
    if kind == 'nserc':
        for c in rng.sample(gr.NSERC_COLS[1:] + ['NAME-2', 'OtherInstitution', 'namedthing'], rng.randint(0, 6)):
            f[c] = some() if 'ame-' in c or c == 'NAME-2' else rng.choice(gr.INSTS) + (sep + rng.choice(gr.INSTS) if rng.random() < 0.3 else '') if 'nstitution' in c else rng.choice(['x', '5', 'a;b', ''])
            if ('ame' in c or 'nstitution' in c) and rng.random() < 0.08:
                f[c] = rng.choice(['', ' ', f[c] + ';'])
                ctx.count('blank')
            elif rng.random() < 0.05:
                f[c] = None
                ctx.count('no_value')
        f['Cle'] = str(i)
        return (kind, f), mk.NSERCGrant(str(i), dict(f), 'NSERC_f', i)
    if kind == 'cihr':
        f = {'PI Names': some(), 'Institution Paid': rng.choice(gr.INSTS), 'Title': 'x; y{}'.format(i)}
        if rng.random() < 0.1:
            f['PI Names'] = ''
        return (kind, f), mk.CIHRGrant(str(i), dict(f), 'cihr_f', i)
    if kind == 'nsf':
        f = {'AwardID': str(i), 'AwardTitle': some()}
        if rng.random() < 0.8:
            f['Investigator'] = [rng.choice(['', '', '', ' ']) + n + rng.choice(['; x, y', ';', '', ' ; x', ' ']) for n in rng.choices(pool, k=rng.randint(1, 4))]
        if rng.random() < 0.8:
            f['Institution'] = [n + rng.choice(['; New York; NY', '; New York; NY', ' ; NY']) for n in rng.choices(gr.INSTS, k=rng.randint(1, 3))]
        if rng.random() < 0.3:
            f['Division'] = [n + '; D' for n in rng.choices(gr.INSTS, k=rng.randint(1, 3))]
        if rng.random() < 0.2:
            f['ARRAAmount'] = None
            ctx.count('no_value')
        ctx.count('listed')
        return (kind, f), mk.NSFGrant({k: (list(v) if isinstance(v, list) else v) for k, v in f.items()}, '{}.xml'.format(i))
    if kind == 'csv':
        f = {'Who': some(), 'Name': some(), 'Where': rng.choice(gr.INSTS), 'Title': 'x; y'}
        for k in list(f):
            if rng.random() < 0.2:
                del f[k]
        return (kind, f), mk.FallbackGrant(str(i), dict(f), 'f.csv', i)
    s = 'R0{}/{}/NCI NIH HHS/United States'.format(i, rng.choice(['CA', 'HL']))
    p = s.split('/')
    return (kind, {'country': p[3], 'agency': p[2], 'code': p[1], 'number': p[0]}), mk.MedlineGrant(s)


def case(rng, ctx):
    import metaknowledge as mk
    warnings.simplefilter('ignore')
    n = rng.choice([0, 1, 2, 4, 8])
    gs, Gs = [], []
    for i in range(n):
        g, G = make(rng, ctx, mk, i)
        gs.append(g)
        Gs.append(G)
    if n == 0:
        ctx.count('empty')
    GC = mk.GrantCollection(Gs)
    ctx.eq(len(GC), n, 'grants')
    fields = sorted({k for _, f in gs for k in f} | {'no such field'})
    for inst in rng.choice([(True,), (False,), (False, True)]):
        ctx.count('institutions' if inst else 'investigators')
        tags = None
        r = rng.random()
        if r < 0.3:
            tags = rng.choice(fields)
            ctx.count('one_tag')
        elif r < 0.6:
            tags = rng.sample(fields, min(len(fields), rng.randint(1, 4)))
            ctx.count('many_tags')
        else:
            ctx.count('no_tags')
        if tags is not None and 'no such field' in tags:
            ctx.count('missing_tag')
        kw = {}
        sep = ';'
        if rng.random() < 0.3:
            sep = rng.choice(['|', '; ', ',', 'an'])
            kw['tagSeperator'] = sep
            ctx.count('separator')
        given = list(tags) if isinstance(tags, list) else tags
        lists = []
        for g, G in zip(gs, Gs):
            exp = names(g, tags, sep, inst)
            fn = G.getInstitutions if inst else G.getInvestigators
            a = {} if tags is None else {'tags': tags}
            if sep != ';':
                a['seperator'] = sep
            got = fn(**a)
            ok = ctx.eq(sorted(x for x in got if x), sorted(x for x, _ in exp if x), 'names', 'of {} tags {!r} separator {!r}'.format(g, tags, sep))
            ctx.check(got.count('') in (0, sum(1 for x, _ in exp if not x)), 'blank-names', lambda: repr((got, exp)))
            lists.append(exp)
        ctx.eq(tags, given, 'tags-changed')
        count, weighted = rng.random() < 0.8, rng.random() < 0.8
        if not count:
            kw['count'] = False
            ctx.count('uncounted')
        if not weighted:
            kw['weighted'] = False
            ctx.count('unweighted')
        if tags is not None:
            kw['targetTags'] = tags
        g = (GC.networkCoInvestigatorInstitution if inst else GC.networkCoInvestigator)(**kw)
        ctx.eq(tags, given, 'tags-changed')
        ctx.check(not g.is_directed() and not g.is_multigraph(), 'graph-type', str(type(g)))
        options = []
        for blank in (True, False):
            N, E, F = {}, {}, {}
            for l in lists:
                l = [(x, t) for x, t in l if x or blank]
                for x, t in l:
                    N[x] = N.get(x, 0) + 1
                    F.setdefault(x, set()).add(t)
                for a in range(len(l)):
                    for b in range(a + 1, len(l)):
                        k = tuple(sorted((l[a][0], l[b][0])))
                        E[k] = E.get(k, 0) + 1
            options.append((N, E, F))
        N, E, F = options[0 if '' in g else 1]
        if any(v > 1 for v in N.values()):
            ctx.count('shared_name')
        if any(len({x for x, _ in l}) < len(l) for l in lists):
            ctx.count('repeated_name')
        if any(len(l) > 6 for l in lists):
            ctx.count('wide_split')
        how = 'of {} tags {!r} separator {!r}'.format(gs, tags, sep)
        if not ctx.eq(sorted(g.nodes()), sorted(N), 'nodes', how):
            continue
        if not ctx.eq(sorted(tuple(sorted(e)) for e in g.edges()), sorted(E), 'edges', how):
            continue
        for x, d in g.nodes(data=True):
            if count:
                ctx.eq(d.get('count'), N[x], 'count', '{!r} {}'.format(x, how))
            else:
                ctx.check('count' not in d, 'count-uncounted', str(d))
            ctx.check(d.get('field') in F[x], 'field', lambda: '{} is in {}'.format(d, F[x]))
        for a, b, d in g.edges(data=True):
            if weighted:
                ctx.eq(d.get('weight'), E[tuple(sorted((a, b)))], 'weight', '{!r} {!r} {}'.format(a, b, how))
            else:
                ctx.check('weight' not in d, 'weight-unweighted', str(d))
        if len(N) > 1 and E:
            ctx.sig(sorted(N.items()), sorted(E.items()))
            ctx.sample({'nodes': len(N), 'edges': len(E), 'tags': tags})


def blank(rng, ctx):
    import metaknowledge as mk
    G = mk.NSERCGrant('1', {'Cle': '1', 'Name-Nom': 'Fox, A', 'CoApplicantName-NomCoApplicant': '', 'Institution-Établissement': 'Univ Laval', 'CoAppInstitution-Établissement': ''}, 'f', 1)
    GC = mk.GrantCollection([G])
    for g, real in ((GC.networkCoInvestigator(), 'Fox, A'), (GC.networkCoInvestigatorInstitution(), 'Univ Laval')):
        if sorted(g.nodes()) == ['', real]:
            ctx.fail('blank-names', 'an empty co-applicant field becomes a node without a name')
        elif list(g.nodes()) != [real]:
            ctx.fail('blank-names-other', 'nodes {}'.format(list(g.nodes())))


PROBES = {'blank-names': blank}
