"""Grants are dictionaries that keep their identity, and copies of grants and records are their own."""
import collections
import copy
import pickle
import warnings
from mkmon import kinds
from mkmon.checks import p26
from mkmon.ref import rawDict

ID = 'P44'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 10000, 200000
RULE = ('Histories of 5-25 dictionary operations (setting, deleting, popping, defaulting, clearing, updating from other grants) on grants of six types that stand in a collection, with copies and pickles made on the way, run '
        'against a dictionary of the same operations; identity, hash, membership, place, names of investigators and answers of the collection are compared after every step with grants made of the current fields. Records of all '
        'formats are copied, pickled and changed through what the copies give. Non-trivial: at least three changes.')
ASSUMPTIONS = ['The identity of malformed grants is left open, as it is that of their fields.']
REQUIRED = ['grants', 'records', 'set', 'del', 'pop', 'popitem', 'setdefault', 'clear', 'update', 'update_bad', 'update_other', 'copies', 'pickles', 'absent', 'refused', 'names', 'answers', 'lists_changed', 'views']


def build(mk, kind, f, i):
    f = {k: list(v) if isinstance(v, list) else v for k, v in f.items()}
    if kind == 'nserc':
        return mk.NSERCGrant(str(i), f, 'NSERC_f', i)
    if kind == 'cihr':
        return mk.CIHRGrant(str(i), f, 'cihr_f', i)
    if kind == 'nsf':
        return mk.NSFGrant(f, '{}.xml'.format(i))
    return mk.FallbackGrant(str(i), f, 'f.csv', i)


def value(rng, kind):
    # the columns of NSERC's files hold text, which is joined when grants are merged
    options = [lambda: '; '.join(rng.choices(p26.gr.NAMES, k=rng.randint(1, 3))), lambda: '', lambda: 'x; y', lambda: rng.choice(p26.gr.INSTS), lambda: rng.choices(p26.gr.NAMES, k=rng.randint(0, 3)), lambda: str(rng.randint(0, 9)),
               lambda: None]
    return (rng.choice([options[i] for i in (0, 1, 2, 3, 5, 6)]) if kind == 'nserc' else rng.choice(options))()


def dup(f):
    return {k: list(v) if isinstance(v, list) else v for k, v in f.items()}


class Held:
    """A grant with what it has to be"""

    def __init__(self, kind, G, i):
        self.kind, self.G, self.i = kind, G, i
        self.M = dup(dict(G.items()))
        self.bad = bool(G.bad)
        self.error = G.error
        self.known = (G.id, G.sourceFile, G.sourceLine, G.original)
        self.hash = hash(G)

    def copied(self, C):
        H = Held.__new__(Held)
        H.__dict__.update(self.__dict__)
        H.G, H.M = C, dup(self.M)
        return H


def grantCase(rng, ctx):
    import metaknowledge as mk
    warnings.simplefilter('ignore')
    hs = []
    for i in range(rng.randint(1, 4)):
        if rng.random() < 0.15:
            s = 'NSERC, {}, Natural Sciences and Engineering Research Council'.format(i) if rng.random() < 0.5 else 'Council {}'.format(i)
            from metaknowledge.grants.scopusGrant import ScopusGrant
            kind, G = 'scopus', ScopusGrant(s)
        else:
            (kind, f), G = p26.make(rng, ctx, mk, i)
        hs.append(Held(kind, G, i))
    badOne = mk.CIHRGrant('none', {'PI Names': '', 'Amount': '5'}, 'cihr_x', 3)
    GC = mk.GrantCollection([h.G for h in hs])
    members = list(hs)
    ctx.count('grants')
    changes = 0
    hist = []
    for _ in range(rng.randint(5, 25)):
        h = rng.choice(hs)
        G, M = h.G, h.M
        keys = list(M)
        k = rng.choice(keys) if keys and rng.random() < 0.7 else rng.choice(['new', 'Name-9', 'Investigator', 'Institution', 'é', '', 'no such field'])
        op = rng.choice(['set', 'set', 'del', 'pop', 'pop', 'popitem', 'setdefault', 'clear', 'update', 'update', 'copy', 'pickle', 'wrong', 'read', 'names', 'answers', 'list'])
        if op == 'clear' and rng.random() < 0.7:
            op = 'read'
        hist.append((op, h.i, k))
        what = lambda: '{} grant after {}:'.format(h.kind, hist)
        there = k in M
        if not there:
            ctx.count('absent')
        if op == 'set':
            v = value(rng, h.kind)
            G[k] = v
            M[k] = list(v) if isinstance(v, list) else v
            changes += 1
            ctx.count('set')
        elif op == 'del':
            try:
                del G[k]
            except KeyError:
                ctx.check(not there, 'del-raises', lambda: '{} {!r} could not be deleted'.format(what(), k))
            else:
                ctx.check(there, 'del-absent', lambda: '{} {!r} was deleted without being there'.format(what(), k))
                M.pop(k, None)
                changes += 1
            ctx.count('del')
        elif op == 'pop':
            if rng.random() < 0.5:
                d = object()
                got, exp = G.pop(k, d), M.pop(k, d)
                ctx.check(got is exp or got == exp, 'pop', lambda: '{} pop({!r}, default) gives {!r} not {!r}'.format(what(), k, got, exp))
            else:
                try:
                    got = G.pop(k)
                except KeyError:
                    ctx.check(not there, 'pop-raises', lambda: '{} pop({!r})'.format(what(), k))
                else:
                    ctx.eq((there, got), (True, M.pop(k, None)), 'pop', what)
            changes += int(there)
            ctx.count('pop')
        elif op == 'popitem':
            try:
                a, b = G.popitem()
            except KeyError:
                ctx.check(not M, 'popitem-raises', lambda: '{} popitem'.format(what()))
            else:
                ctx.check(a in M and M[a] == b, 'popitem', lambda: '{} popitem gives {!r}'.format(what(), (a, b)))
                M.pop(a, None)
                changes += 1
            ctx.count('popitem')
        elif op == 'setdefault':
            v = value(rng, h.kind)
            ctx.eq(G.setdefault(k, v), M.setdefault(k, list(v) if isinstance(v, list) else v), 'setdefault', what)
            changes += int(not there)
            ctx.count('setdefault')
        elif op == 'clear':
            G.clear()
            M.clear()
            changes += 1
            ctx.count('clear')
        elif op == 'update':
            o = rng.choice(hs)
            if rng.random() < 0.1 and h.kind == 'cihr':
                if rng.random() < 0.3:
                    G.update(badOne)
                    M.update(dup(dict(badOne.items())))
                    h.bad, h.error = True, badOne.error
                    ctx.count('update_bad')
            elif type(o.G) is not type(G):
                if h.kind != 'nserc':
                    G.update(o.G)
                    ctx.count('update_other')
            elif h.kind == 'nserc' and o is not h:
                G.update(o.G)
                for a, v in list(o.M.items()):
                    if v:
                        M[a] = M[a] + '; ' + v if M.get(a) else v
                ctx.count('update')
            elif o is not h:
                G.update(o.G)
                M.update(dup(o.M))
                if o.bad:
                    h.bad, h.error = True, o.error
                ctx.count('update')
            changes += 1
        elif op in ('copy', 'pickle'):
            C = rng.choice([lambda: G.copy(), lambda: copy.copy(G), lambda: copy.deepcopy(G)])() if op == 'copy' else pickle.loads(pickle.dumps(G))
            ctx.count('copies' if op == 'copy' else 'pickles')
            ctx.check(C is not G and type(C) is type(G), 'copy-is', lambda: '{} is {!r}'.format(what(), C))
            if not h.bad:
                ctx.check(C == G and hash(C) == hash(G) and len({C, G}) == 1, 'copy-equal', lambda: '{} the copy is another grant'.format(what()))
            if len(hs) < 7:
                hs.append(h.copied(C))
        elif op == 'wrong':
            x = rng.choice([5, None, ('a',), b'a'])
            for fn in (lambda: G.__setitem__(x, 'v'), lambda: G.setdefault(x, 'v')):
                try:
                    fn()
                except KeyError:
                    ctx.count('refused')
                else:
                    if not ctx.fail('key-type', '{} {!r} is a key'.format(what(), x)):
                        break
        elif op == 'read':
            ctx.count('views')
            view, items, vals = G.keys(), G.items(), G.values()
            if rng.random() < 0.5:
                G['seen later'] = 'v'
                M['seen later'] = 'v'
                changes += 1
            ctx.eq((list(view), [list(x) for x in items], list(vals)), (list(M), [list(x) for x in M.items()], list(M.values())), 'views', what)
        elif op == 'names':
            tags = rng.choice([None, k, [k, 'Name-9'], keys[:3]])
            inst = rng.random() < 0.5
            if all(isinstance(v, (str, list)) or v is None for v in M.values()):
                sep = rng.choice([';', ';', '|', 'n'])
                try:
                    exp = p26.names((h.kind, M), tags, sep, inst)
                except AttributeError:
                    exp = None
                if exp is not None and not any(v is None for v in M.values()):
                    got = (G.getInstitutions if inst else G.getInvestigators)(tags, sep)
                    ctx.eq(sorted(x for x in got if x), sorted(x for x, _ in exp if x), 'names', lambda: '{} {} of {}'.format(what(), tags, M))
                    ctx.count('names')
        elif op == 'answers':
            fields = sorted({a for m in members for a in m.M})
            if fields and all(isinstance(v, (str, list)) for m in members for v in m.M.values()):
                fresh = mk.GrantCollection([build(mk, 'csv', m.M, m.i) for m in members])
                t = rng.choice(fields)
                pairs = lambda C: sorted(map(tuple, C.rankedSeries(t, giveRanks=False)))
                ctx.eq(pairs(GC), pairs(fresh), 'answers', lambda: '{} rankedSeries {!r} of {}'.format(what(), t, [m.M for m in members]))
                ctx.eq(sorted(map(sorted, GC.networkOneMode(t).edges())), sorted(map(sorted, fresh.networkOneMode(t).edges())), 'answers', lambda: '{} networkOneMode {!r} of {}'.format(what(), t, [m.M for m in members]))
                ctx.count('answers')
        elif op == 'list':
            ls = [a for a, v in M.items() if isinstance(v, list)]
            if ls:
                # what a copy gives is not what the original has
                C = rng.choice([lambda: G.copy(), lambda: copy.deepcopy(G), lambda: pickle.loads(pickle.dumps(G))])()
                C[ls[0]].append('changed')
                C[ls[0]][0] = 'changed too'
                ctx.count('lists_changed')
        for x in hs:
            X = x.G
            if not ctx.eq(list(X.items()), list(x.M.items()), 'fields', lambda: '{} {} grant {}'.format(hist, x.kind, x.i)):
                return
            ctx.check(len(X) == len(x.M) and list(X) == list(x.M) and (k in X) == (k in x.M), 'mapping', lambda: '{} {!r} {}'.format(hist, X, list(X)))
            d = object()
            ctx.check(X.get(k, d) == x.M.get(k, d), 'get', lambda: '{} get({!r}) of {!r} gives {!r}'.format(hist, k, X, X.get(k)))
            try:
                ctx.check(X[k] == x.M[k], 'item', lambda: '{} [{!r}]'.format(hist, k))
            except KeyError:
                ctx.check(k not in x.M and k not in X, 'item', lambda: '{} [{!r}] raises'.format(hist, k))
            ctx.check((X.id, X.sourceFile, X.sourceLine, X.original) == x.known, 'identity', lambda: '{} {!r} was {}'.format(hist, X, x.known))
            ctx.check(bool(X.bad) == x.bad and X.error is x.error or str(X.error) == str(x.error), 'bad', lambda: '{} {!r} bad {} error {}'.format(hist, X, X.bad, X.error))
            if not x.bad:
                ctx.check(hash(X) == x.hash, 'hash', lambda: '{} hash of {!r} changed'.format(hist, X))
        for m in members:
            if not m.bad:
                ctx.check(m.G in GC and GC.containsID(m.G.id) and GC.getID(m.G.id).id == m.G.id, 'member', lambda: '{} {!r} is not found any more'.format(hist, m.G))
    ctx.eq(len(GC), len(members), 'members', lambda: 'after {}'.format(hist))
    if changes > 2:
        ctx.sig([(h.kind, sorted(map(repr, h.M))) for h in hs], hist)
        ctx.sample({'kinds': [h.kind for h in hs], 'history': hist[:10]})


def recordCase(rng, ctx):
    kind, r, make, want = kinds.one(rng, ctx)
    R, F = make(), make()
    raw = {k: (list(v) if isinstance(v, list) else v) for k, v in rawDict(F).items()}
    ctx.count('records')
    some = rng.sample(sorted(raw), min(3, len(raw)))
    for k in some:
        if rng.random() < 0.5:
            R.get(k)
    how = rng.choice(['copy', 'deepcopy', 'pickle'])
    C = {'copy': lambda: R.copy(), 'deepcopy': lambda: copy.deepcopy(R), 'pickle': lambda: pickle.loads(pickle.dumps(R))}[how]()
    ctx.check(C == R and hash(C) == hash(R) and type(C) is type(R), 'record-copy', lambda: '{} {}'.format(kind, how))
    A, B = (C, R) if rng.random() < 0.7 else (R, C)
    n = 0
    for k in some:
        for v in (A.get(k, raw=True), A.get(k)):
            if isinstance(v, list) and v:
                v[0] = 'changed' if isinstance(v[0], str) else v[0]
                v.append(v[0])
                n += 1
    ctx.count('lists_changed', n)
    ctx.eq(rawDict(B), raw, 'decoupled', lambda: '{}: raw fields of a record after its {} was changed'.format(kind, how))
    for k in some:
        ctx.eq(kinds.norm(B.get(k)), kinds.norm(F.get(k)), 'decoupled-value', lambda: '{} {!r} of a record after its {} was changed'.format(kind, k, how))
    if n > 2:
        ctx.sig(kind, r.id, how, some)


def case(rng, ctx):
    if rng.random() < 0.3:
        recordCase(rng, ctx)
    else:
        grantCase(rng, ctx)
