"""A record is one consistent mapping: how, in which order and how often it is looked at makes no difference."""
import io
import pickle
from mkmon import gen, kinds
from mkmon.ref import rawDict

ID = 'P09'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 12000, 200000
RULE = ('Random records of all four formats; a random history of 5-30 lookups, membership tests, iterations, sub-dictionaries, copies, picklings, writings and derived computations is run on one '
        'record object and every answer compared with a fresh record asked that one thing. Non-trivial: at least five different fields looked at.')
ASSUMPTIONS = ['Values handed out are not modified by the caller.']
REQUIRED = ['op_get', 'op_in', 'op_items', 'op_copy', 'op_pickle', 'op_subDict', 'op_write', 'op_bib', 'op_raw', 'op_edit', 'missing_keys', 'raw_other_name']


def case(rng, ctx):
    import metaknowledge as mk
    kind, r, make, want = kinds.one(rng, ctx)
    base = make()
    raw = rawDict(base)
    common = ['year', 'volume', 'beginningPage', 'DOI', 'address', 'j9', 'citations', 'grants', 'selfCitation', 'authorsShort', 'authorsFull', 'title', 'journal', 'keywords', 'abstract', 'id', 'month']
    common += [a for a in (base.getAltName(t) for t in raw) if a]
    universe = sorted(set(raw) | set(want) | set(common) | {'nonsense', 'ZZ', '', 'au', 'Author', 'TI', 'AB'})
    cache = {}

    def reference(k):
        if k not in cache:
            F = make()
            try:
                cache[k] = (True, kinds.norm(F[k]))
            except KeyError:
                cache[k] = (False, None)
        return cache[k]

    R = base
    h0 = hash(R)
    looked = set()
    hist = []
    for _ in range(rng.randint(5, 30)):
        op = rng.choice(['get', 'get', 'get', 'item', 'item', 'in', 'in', 'items', 'copy', 'pickle', 'subDict', 'write', 'bib', 'raw', 'iter', 'cite', 'str', 'edit', 'wrong'])
        k = rng.choice(universe)
        there, val = reference(k)
        ctx.count('op_' + op)
        hist.append((op, k))
        looked.add(k)
        if not there:
            ctx.count('missing_keys')
        if op == 'get':
            d = object()
            v = R.get(k, d)
            if there:
                ctx.check(v is not d, 'get-default', lambda: '{}: get({!r}) gives the default'.format(kind, k))
                ctx.eq(kinds.norm(v) if v is not d else None, val, 'get', lambda: '{}: get({!r}) after {}:'.format(kind, k, hist))
            else:
                ctx.check(v is d and R.get(k) is None, 'get-missing', lambda: '{}: get({!r}) gives {!r} instead of the default'.format(kind, k, v))
        elif op == 'item':
            try:
                v = R[k]
            except KeyError:
                ctx.check(not there, 'item-raises', lambda: '{}: [{!r}] raises after {}'.format(kind, k, hist))
            else:
                ctx.check(there, 'item-present', lambda: '{}: [{!r}] gives {!r} after {}'.format(kind, k, v, hist))
                if there:
                    ctx.eq(kinds.norm(v), val, 'item', lambda: '{}: [{!r}] after {}:'.format(kind, k, hist))
        elif op == 'in':
            ctx.check((k in R) == there, 'in', lambda: '{}: {!r} in record is {} after {}'.format(kind, k, k in R, hist))
        elif op == 'iter':
            ctx.eq(list(R), list(raw), 'iter', lambda: '{}: iteration after {}'.format(kind, hist))
            ctx.eq(len(R), len(raw), 'len')
            ctx.eq(list(R.keys()), list(raw), 'keys')
        elif op == 'items':
            it = list(R.items())
            ctx.eq([a for a, b in it], list(raw), 'items-keys')
            ctx.eq([kinds.norm(b) for a, b in it], [reference(a)[1] for a in raw], 'items-values', lambda: '{} after {}:'.format(kind, hist))
            ctx.eq([kinds.norm(b) for b in R.values()], [reference(a)[1] for a in raw], 'values', lambda: '{} after {}:'.format(kind, hist))
        elif op == 'raw':
            ctx.eq(rawDict(R), raw, 'raw', lambda: '{}: raw fields after {}'.format(kind, hist))
            ctx.eq([list(v) if isinstance(v, list) else v for v in R.values(raw=True)], list(raw.values()), 'raw-values')
            if k in raw:
                v = R.get(k, raw=True)
                ctx.eq(list(v) if isinstance(v, list) else v, raw[k], 'raw-get')
            elif R.getAltName(k) in raw:
                ctx.count('raw_other_name')
                v = R.get(k, raw=True)
                ctx.eq(list(v) if isinstance(v, list) else v, raw[R.getAltName(k)], 'raw-other-name', lambda: '{}: raw get of {!r} after {}'.format(kind, k, hist))
            elif not there:
                ctx.check(R.get(k, 5, raw=True) == 5, 'raw-missing', lambda: '{}: raw get of {!r} gives {!r}'.format(kind, k, R.get(k, 5, raw=True)))
        elif op == 'subDict':
            ks = rng.sample(universe, min(len(universe), rng.randint(1, 6)))
            d = R.subDict(ks)
            ctx.eq({a: (kinds.norm(b) if reference(a)[0] else b) for a, b in d.items()}, {a: reference(a)[1] for a in ks}, 'subDict', lambda: '{} after {}:'.format(kind, hist))
            d = R.subDict(ks, raw=True)
            want = {a: raw[a if a in raw else R.getAltName(a)] for a in ks if a in raw or R.getAltName(a) in raw}
            ctx.eq({a: d[a] for a in ks if a in want}, want, 'subDict-raw')
        elif op == 'copy':
            C = R.copy()
            ctx.check(C == R and hash(C) == hash(R) and type(C) is type(R) and C.id == R.id, 'copy', lambda: '{}: copy differs'.format(kind))
            if rng.random() < 0.5:
                R = C
        elif op == 'pickle':
            C = pickle.loads(pickle.dumps(R))
            ctx.check(C == R and hash(C) == hash(R) and type(C) is type(R) and C.id == R.id and C.sourceFile == R.sourceFile, 'pickle', lambda: '{}: unpickled record differs'.format(kind))
            if rng.random() < 0.5:
                R = C
        elif op == 'write':
            f = io.StringIO()
            try:
                R.writeRecord(f)
            except mk.RecordsNotCompatible:
                ctx.check(kind == 'pro', 'write-refused', lambda: '{} cannot be written'.format(kind))
            else:
                g = io.StringIO()
                make().writeRecord(g)
                ctx.eq(f.getvalue(), g.getvalue(), 'write', lambda: '{}: written text after {}'.format(kind, hist))
        elif op == 'bib':
            ctx.eq(R.bibString(), make().bibString(), 'bib', lambda: '{}: bibtex after {}'.format(kind, hist))
        elif op == 'cite':
            c, d = R.createCitation(), make().createCitation()
            ctx.check(c == d and str(c) == str(d), 'self-citation', lambda: '{}: own citation {} after {}, {} at first'.format(kind, c, hist, d))
        elif op == 'str':
            ctx.eq((str(R), repr(R), hash(R)), (str(make()), repr(make()), h0), 'str')
        elif op == 'wrong':
            for bad in (3, None, ('a',)):
                try:
                    R[bad]
                except (TypeError, KeyError):
                    pass
                else:
                    ctx.fail('wrong-key', '{!r} is a key'.format(bad))
        elif op == 'edit':
            # the raw lists of a copy's own dictionary are not those of the original's dictionary
            C = R.copy()
            S = pickle.loads(pickle.dumps(R))
            for X in (C, S):
                for a in universe[:4]:
                    X.get(a)
            ctx.eq(rawDict(R), raw, 'copy-independent', '{}: raw fields after looking at copies'.format(kind))
    if len(looked) > 4:
        ctx.sig(kind, r.id, hist)
        ctx.sample({'kind': kind, 'history': hist[:8]})
