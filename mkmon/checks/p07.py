"""Collections behave as mathematical sets of their elements, whatever has been done to them."""
import pickle
from mkmon import universe

ID = 'P07'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 12000, 200000
RULE = ('Random histories of 5-40 operations (binary and in-place set operators, add, discard, remove, pop, copy, chunk, split, clear, pickle, construction from iterables) over a few live record or '
        'grant collections of all record types with bad members and error reports, against a model of plain sets; every live collection is compared with its model after every operation. '
        'Non-trivial: at least five operations on non-empty collections.')
ASSUMPTIONS = ['Elements are the same when they are of the same type and hash alike, as the package defines it.', 'The order comparisons of collections are not part of the property.']
REQUIRED = ['op_or', 'op_and', 'op_sub', 'op_xor', 'op_ior', 'op_iand', 'op_isub', 'op_ixor', 'op_chunk', 'op_split', 'op_copy', 'op_pop', 'op_remove', 'op_plus', 'op_wrongIter', 'error_states', 'bad_members', 'grant_cases']


class M:
    """Model: names of elements, error reports and whether bad."""

    def __init__(self, s, errors=None, bad=False):
        self.s = set(s)
        self.errors = dict(errors or {})
        self.bad = bad


def case(rng, ctx):
    import metaknowledge as mk
    useGrants = rng.random() < 0.25
    if useGrants:
        ctx.count('grant_cases')
        U = universe.grants(rng, ctx, rng.randint(3, 9))
        cls, Err = mk.GrantCollection, mk.mkExceptions.CollectionTypeError
    else:
        U = universe.records(rng, ctx, rng.randint(3, 10), kinds=('wos', 'wos', 'med', 'sco'))
        cls, Err = mk.RecordCollection, mk.mkExceptions.CollectionTypeError
    items = [R for _, R in U]
    name = {id(R): i for i, R in enumerate(items)}
    ctx.count('bad_members', sum(1 for R in items if R.bad))

    def idx(R):
        i = name.get(id(R))
        if i is None:
            for j, X in enumerate(items):
                if X == R:
                    return j
            return -1
        return i

    live = []

    def make(s, errors=None):
        C = cls([items[i] for i in s], name='c{}'.format(len(live)))
        m = M(s)
        if errors:
            C.bad = True
            C.errors = dict(errors)
            m.bad, m.errors = True, dict(errors)
            ctx.count('error_states')
        return [C, m]

    for _ in range(rng.randint(2, 4)):
        s = rng.sample(range(len(items)), rng.randint(0, len(items)))
        live.append(make(s, {'f{}'.format(rng.randint(1, 3)): 'e{}'.format(rng.randint(1, 9))} if rng.random() < 0.25 else None))

    def agree(what):
        ok = True
        for k, (C, m) in enumerate(live):
            got = [idx(R) for R in C]
            ok &= ctx.check(set(got) == m.s and len(got) == len(set(got)), 'contents', lambda: 'after {}: collection {} holds {}, model {}'.format(what, k, sorted(got), sorted(m.s)))
            ok &= ctx.eq(len(C), len(m.s), 'length', 'after {}'.format(what))
            ok &= ctx.check(bool(C.bad) == m.bad, 'bad-flag', lambda: 'after {}: collection {} bad={} model {}'.format(what, k, C.bad, m.bad))
            ok &= ctx.check(C.errors == m.errors, 'errors', lambda: 'after {}: collection {} errors={} model {}'.format(what, k, C.errors, m.errors))
            for i in rng.sample(range(len(items)), min(3, len(items))):
                ok &= ctx.check((items[i] in C) == (i in m.s), 'membership', lambda: 'after {}: element {} in collection {}: {}'.format(what, i, k, items[i] in C))
        for a in range(len(live)):
            for b in range(a, len(live)):
                A, B = live[a], live[b]
                same = A[1].s == B[1].s
                ok &= ctx.check((A[0] == B[0]) == same and (A[0] != B[0]) == (not same), 'equality', lambda: 'after {}: collections {} and {} equal: {}'.format(what, a, b, A[0] == B[0]))
                if same:
                    ok &= ctx.check(hash(A[0]) == hash(B[0]), 'hash', lambda: 'after {}: equal collections hash differently'.format(what))
                ok &= ctx.check(A[0].isdisjoint(B[0]) == (not A[1].s & B[1].s), 'disjoint', lambda: 'after {}: isdisjoint wrong'.format(what))
        return ok

    hist = []
    nops = 0
    for _ in range(rng.randint(5, 40)):
        op = rng.choice(['or', 'and', 'sub', 'xor', 'ior', 'iand', 'isub', 'ixor', 'ior', 'add', 'add', 'discard', 'remove', 'removeMissing', 'pop', 'copy', 'chunk', 'split', 'clear', 'pickle', 'iter', 'peek', 'wrong', 'selfop', 'plus', 'wrongIter'])
        k = rng.randrange(len(live))
        C, m = live[k]
        l = rng.randrange(len(live))
        O, om = live[l]
        ctx.count('op_' + op)
        hist.append((op, k, l))
        if m.s:
            nops += 1
        new = None
        if op in ('or', 'and', 'sub', 'xor'):
            R = {'or': lambda: C | O, 'and': lambda: C & O, 'sub': lambda: C - O, 'xor': lambda: C ^ O}[op]()
            s = {'or': m.s | om.s, 'and': m.s & om.s, 'sub': m.s - om.s, 'xor': m.s ^ om.s}[op]
            nm = M(s)
            if m.bad or om.bad:
                nm.bad = True
                nm.errors = dict(m.errors)
                nm.errors.update(om.errors)
            new = [R, nm]
            ctx.eq(R.name, '{} {} {}'.format(C.name, {'or': '|', 'and': '&', 'sub': '-', 'xor': '^'}[op], O.name), 'name', op)
            ctx.check(type(R) is cls, 'result-type', lambda: '{} gives {}'.format(op, type(R)))
        elif op == 'plus':
            if useGrants:
                continue
            # records added together: what the sum says of errors is not part of the property
            R = C + O
            ctx.eq((sorted(idx(X) for X in R), len(R), type(R)), (sorted(m.s | om.s), len(m.s | om.s), cls), 'plus')
            R.clear()
            for X in items:
                R.add(X)
        elif op == 'wrongIter':
            bad = rng.choice([lambda: [items[0], 'not an element'], lambda: 7, lambda: list(C) + [None], lambda: [{}], lambda: (x for x in (1, 2)), lambda: 'no such path ' + hist[0][0]])()
            try:
                cls(bad)
            except (Err, mk.mkException):
                pass
            else:
                ctx.fail('wrong-input', 'a collection was made from {!r}'.format(bad))
        elif op in ('ior', 'iand', 'isub', 'ixor', 'selfop'):
            if op == 'selfop':
                op2 = rng.choice(['ior', 'iand', 'isub', 'ixor'])
                O, om, l = C, M(m.s, m.errors, m.bad), k
            else:
                op2 = op
            X = C
            wantName = '{} {}= {}'.format(C.name, {'ior': '|', 'iand': '&', 'isub': '-', 'ixor': '^'}[op2], O.name)
            if op2 == 'ior':
                X |= O
                s = m.s | om.s
            elif op2 == 'iand':
                X &= O
                s = m.s & om.s
            elif op2 == 'isub':
                X -= O
                s = m.s - om.s
            else:
                X ^= O
                s = m.s ^ om.s
            ctx.eq(X.name, wantName, 'name', op2)
            ctx.check(X is C, 'in-place', lambda: '{} made a new object'.format(op2))
            m.s = set(s)
            if om.bad or m.bad:
                m.bad = True
                m.errors.update(om.errors)
        elif op == 'add':
            i = rng.randrange(len(items))
            C.add(items[i])
            m.s.add(i)
        elif op == 'discard':
            i = rng.randrange(len(items))
            C.discard(items[i])
            m.s.discard(i)
        elif op in ('remove', 'removeMissing'):
            i = rng.randrange(len(items))
            try:
                C.remove(items[i])
            except KeyError:
                ctx.check(i not in m.s, 'remove-raises', lambda: 'removing a member raised')
            else:
                ctx.check(i in m.s, 'remove-silent', lambda: 'removing a non-member did not raise')
                m.s.discard(i)
        elif op == 'pop':
            try:
                R = C.pop()
            except KeyError:
                ctx.check(not m.s, 'pop-raises', 'pop of a non-empty collection raised')
            else:
                i = idx(R)
                ctx.check(i in m.s, 'pop-foreign', lambda: 'popped element {} not a member'.format(i))
                m.s.discard(i)
        elif op == 'copy':
            new = [C.copy(), M(m.s, m.errors, m.bad)]
            ctx.check(new[0] is not C and type(new[0]) is cls and new[0].name == C.name, 'copy-object', 'copy is not a new equal object')
        elif op in ('chunk', 'split'):
            size = rng.randint(1, 6)
            s, whole = set(m.s), C.name
            parts = C.chunk(size) if op == 'chunk' else C.split(size)
            got = [[idx(R) for R in P] for P in parts]
            flat = [i for g in got for i in g]
            ctx.check(set(flat) == s and len(flat) == len(s), op + '-partition', lambda: '{}({}) of {} gives {}'.format(op, size, sorted(s), got))
            ctx.check(all(0 < len(P) <= size for P in parts), op + '-size', lambda: '{}({}) gives sizes {}'.format(op, size, [len(P) for P in parts]))
            ctx.eq(len(parts), -(-len(s) // size), op + '-number', 'number of parts')
            ctx.check(all(type(P) is cls for P in parts), op + '-type', 'parts of another type')
            ctx.check(len({P.name for P in parts}) == len(parts) and all(whole in P.name for P in parts), op + '-name', lambda: 'the parts of {} are named {}'.format(whole, [P.name for P in parts]))
            if op == 'split':
                m.s, m.bad, m.errors = set(), False, {}
            if parts and len(live) < 6:
                j = rng.randrange(len(parts))
                new = [parts[j], M(got[j])]
        elif op == 'clear':
            C.clear()
            m.s, m.bad, m.errors = set(), False, {}
        elif op == 'pickle':
            new = [pickle.loads(pickle.dumps(C)), M(m.s, m.errors, m.bad)]
        elif op == 'iter':
            src = rng.choice([lambda: C, lambda: list(C), lambda: iter(list(C)), lambda: (R for R in list(C)), lambda: set(C), lambda: tuple(C)])()
            new = [cls(src, name='it'), M(m.s)]
        elif op == 'peek':
            R = C.peek()
            ctx.check((R is None) == (not m.s) and (R is None or idx(R) in m.s), 'peek', lambda: 'peek gives {!r}'.format(R))
        elif op == 'wrong':
            try:
                C.add('not an element')
            except Err:
                pass
            else:
                ctx.fail('wrong-type-added', 'a string was added')
            other = mk.RecordCollection(name='o') if useGrants else mk.GrantCollection(name='o')
            ctx.check(C != other, 'mixed-equal', 'a record collection equals a grant collection')
        if new is not None:
            if len(live) < 6:
                live.append(new)
            else:
                live[rng.randrange(len(live))] = new
        if not agree(hist[-6:]):
            break
    if nops >= 5:
        ctx.sig(hist, len(items))
        ctx.sample({'history': hist[:12], 'sizes': [len(C) for C, _ in live]})
