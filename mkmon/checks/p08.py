"""Lookup by ID, and the bad entries, agree with what the collection holds."""
from mkmon import universe

ID = 'P08'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 20000, 300000
RULE = ('Random histories of ID lookups, removals and bad-entry operations on record and grant collections of all types with several bad members, against a model keyed by ID. '
        'Non-trivial: a collection with at least one bad and one good member.')
ASSUMPTIONS = ['IDs are unique within a collection.']
REQUIRED = ['op_containsID', 'op_getID', 'op_removeID', 'op_discardID', 'op_badEntries', 'op_dropBad', 'op_tags', 'bad_members', 'missing_ids']


def case(rng, ctx):
    import metaknowledge as mk
    useGrants = rng.random() < 0.25
    if useGrants:
        U = universe.grants(rng, ctx, rng.randint(1, 8))
        cls = mk.GrantCollection
    else:
        U = universe.records(rng, ctx, rng.randint(1, 9), kinds=('wos', 'med', 'sco', 'pro'), bad=0.3)
        cls = mk.RecordCollection
    items = [R for _, R in U]
    C = cls(items, name='c')
    if any(R.bad for R in items) and rng.random() < 0.7:
        C.bad = True
        C.errors = {'file': 'error'}
    good = {k: R for k, R in U if k is not None}
    bad = [R for k, R in U if R.bad]
    nbad = len(bad)
    ctx.count('bad_members', nbad)
    gone = []
    if good and nbad:
        ctx.sig(sorted(map(str, good)), nbad, rng.random())
        ctx.sample({'good': len(good), 'bad': nbad})

    def agree(what):
        got = {id(R) for R in C}
        nameless = [R for k, R in U if k is None and any(R is b for b in bad)]
        want = {id(R) for R in good.values()} | {id(R) for R in nameless}
        ctx.check(got == want, 'contents', lambda: 'after {}: holds {} elements, model {}'.format(what, len(got), len(want)))

    for _ in range(rng.randint(3, 15)):
        op = rng.choice(['containsID', 'getID', 'getID', 'removeID', 'discardID', 'badEntries', 'dropBad', 'tags'])
        ctx.count('op_' + op)
        x = rng.choice(sorted(good) + gone + ['WOS:none', '', 'PMID:1', sorted(good)[0][:-1] if good else 'x', sorted(good)[0].lower() if good else 'x'])
        there = x in good
        if not there:
            ctx.count('missing_ids')
        if op == 'containsID':
            ctx.check(C.containsID(x) is there, 'containsID', lambda: 'containsID({!r}) is {}'.format(x, C.containsID(x)))
        elif op == 'getID':
            R = C.getID(x)
            ctx.check(R is good.get(x), 'getID', lambda: 'getID({!r}) gives {!r}'.format(x, R))
        elif op == 'removeID':
            try:
                C.removeID(x)
            except KeyError:
                ctx.check(not there, 'removeID-raises', lambda: 'removeID of the member {!r} raised'.format(x))
            else:
                ctx.check(there, 'removeID-silent', lambda: 'removeID of {!r}, not a member, did not raise'.format(x))
        elif op == 'discardID':
            C.discardID(x)
        if op in ('removeID', 'discardID') and there:
            R = good.pop(x)
            bad = [b for b in bad if b is not R]
            gone.append(x)
        if op == 'badEntries':
            B = C.badEntries()
            ctx.check(type(B) is cls and {id(R) for R in B} == {id(R) for R in bad}, 'badEntries', lambda: 'badEntries gives {} members, {} are bad'.format(len(B), len(bad)))
            B.clear()                  # what is done to it does not touch the collection
        elif op == 'dropBad':
            C.dropBadEntries()
            for b in bad:
                for k in [k for k, R in good.items() if R is b]:
                    del good[k]
                    gone.append(k)
            bad = []
            ctx.check(not C.bad and C.errors == {}, 'dropBad-flag', lambda: 'after dropping bad entries bad={} errors={}'.format(C.bad, C.errors))
        elif op == 'tags':
            want = set()
            for R in C:
                want |= set(R)
            ctx.eq(set(C.tags()), want, 'tags')
        agree(op)
