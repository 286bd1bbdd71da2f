"""Citations: parsed into their parts, equal exactly when author, year and journal are, the same in every process."""
import os
import pickle
import subprocess
import sys
from mkmon import gen

ID = 'P10'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 6000, 100000
RULE = ('Random lists of 2-25 citation strings rendered from their parts (all part subsets, spellings, anonymous, bad, DOI forms) and Scopus references; parsed parts, identity, equality, hashing, '
        'membership, pickling (also across processes with another hash seed), derived strings and the memory-saving mode are compared with the parts. Non-trivial: at least one pair of different spellings of one citation.')
ASSUMPTIONS = ['A missing journal comes with no volume, page or DOI, as otherwise the text is ambiguous.', 'Unparsable references are only required to keep their text.']
REQUIRED = ['uncategorised', 'citations', 'pairs', 'same_pairs', 'variants', 'scopus', 'processes', 'fast_mode', 'bad', 'anonymous']

CHILD = '''
import pickle, sys
sys.path.insert(0, sys.argv[1])
import metaknowledge as mk
mk.VERBOSE_MODE = False
L = pickle.load(open(sys.argv[2], 'rb'))
out = []
for c, text in L:
    fresh = mk.Citation(text)
    out.append((c == fresh, hash(c) == hash(fresh), c in {fresh}, c.ID(), str(c)))
pickle.dump(out, open(sys.argv[3], 'wb'))
'''


def case(rng, ctx):
    import metaknowledge as mk
    from metaknowledge.citation import Citation
    cites = []
    pool = gen.citPool(rng, rng.randint(1, 8), complete=0.75)
    for _ in range(rng.randint(2, 25)):
        c = rng.choice(pool)
        if rng.random() < 0.5:
            c = c.variant(rng)
            ctx.count('variants')
        if c.misc and c.author and c.year and c.journal and rng.random() < 0.5:
            # the same work without what cannot be placed
            ctx.count('variants')
            c = gen.Cit(*(c.parts[:rng.choice([3, 5])]))
        cites.append(c)
    objs = [Citation(c.text) for c in cites]
    for c, o in zip(cites, objs):
        ctx.count('citations')
        for a in ('author', 'year', 'journal', 'V', 'P', 'DOI', 'misc'):
            ctx.eq(getattr(o, a), getattr(c, a), a, lambda: '{!r}:'.format(c.text))
        ctx.eq(o.bad, c.bad, 'bad', lambda: '{!r}:'.format(c.text))
        ctx.check((o.error is not None) == c.bad, 'error', lambda: '{!r}: bad {} error {!r}'.format(c.text, o.bad, o.error))
        ctx.eq(o.ID(), c.id, 'id', lambda: '{!r}:'.format(c.text))
        ctx.eq(str(o), c.text, 'original', 'text of the citation')
        ctx.eq(o.original, c.text, 'original', 'original of the citation')
        ctx.eq(o.isAnonymous(), c.anonymous, 'anonymous', lambda: '{!r}:'.format(c.text))
        ctx.count('bad', int(c.bad))
        ctx.count('anonymous', int(c.anonymous))
        ctx.count('uncategorised', int(bool(c.misc)))
        extra = ', '.join(x for x in (c.V, c.P, c.DOI, c.misc) if x)
        ctx.eq(o.Extra(), extra, 'extra', lambda: '{!r}:'.format(c.text))
        ctx.eq(o.allButDOI(), ', '.join([c.id] + [x for x in (c.V, c.P, c.misc) if x]), 'all-but-doi', lambda: '{!r}:'.format(c.text))
    same = 0
    for i in range(len(objs)):
        for j in range(i, len(objs)):
            a, b = objs[i], objs[j]
            eq = cites[i].id == cites[j].id
            ctx.count('pairs')
            if eq and cites[i].text != cites[j].text:
                same += 1
            ctx.check((a == b) == eq and (a != b) == (not eq), 'equality', lambda: '{!r} and {!r}: == {}, != {}'.format(cites[i].text, cites[j].text, a == b, a != b))
            if eq:
                ctx.check(hash(a) == hash(b), 'hash', lambda: '{!r} and {!r} hash differently'.format(cites[i].text, cites[j].text))
    ctx.count('same_pairs', same)
    ctx.eq(len(set(objs)), len({c.id for c in cites}), 'set-size', 'distinct citations')
    ctx.check(objs[0] != cites[0].text and objs[0] != 7, 'foreign-equal', 'a citation equals something else')
    back = pickle.loads(pickle.dumps(objs))
    for o, b in zip(objs, back):
        ctx.check(o == b and hash(o) == hash(b) and str(o) == str(b) and o.ID() == b.ID(), 'pickle', lambda: '{!r} changed in a pickle'.format(str(o)))
    # the memory-saving mode gives the same identities
    mk.FAST_CITES = True
    try:
        ctx.count('fast_mode')
        fast = [Citation(c.text) for c in cites]
        for c, f, o in zip(cites, fast, objs):
            ctx.eq(f.ID(), c.id, 'fast-id')
            ctx.check(f == o and hash(f) == hash(o), 'fast-equal', lambda: '{!r} differs in fast mode'.format(c.text))
            ctx.eq(str(f), c.id, 'fast-str')
    finally:
        mk.FAST_CITES = False
    # Scopus references
    for _ in range(rng.randint(0, 4)):
        text, key, parts = gen.scoRefParts(rng)
        o = Citation(text, scopusMode=True)
        ctx.count('scopus')
        ctx.eq(o.ID(), key, 'scopus-id', lambda: '{!r}:'.format(text))
        ctx.check(not o.bad and o.year == int(key.split(', ')[-2]) and o.journal == key.split(', ')[-1] and str(o) == text, 'scopus-parts', lambda: '{!r}: {} {!r} {!r}'.format(text, o.bad, o.year, o.journal))
        for a, v in parts.items():
            ctx.eq(getattr(o, a), v, 'scopus-' + a, lambda: '{!r}:'.format(text))
        ctx.eq(o.Extra(), ', '.join(x for x in (parts['V'], parts['P'], parts['misc']) if x), 'scopus-extra', text)
        ctx.eq(o.allButDOI(), ', '.join([key] + [x for x in (parts['extraAuthors'], parts['V'], parts['issue'], parts['P'], parts['misc']) if x]), 'scopus-all', text)
        o2 = Citation(text, scopusMode=True)
        ctx.check(o == o2 and hash(o) == hash(o2), 'scopus-equal', text)
        junk = gen.words(rng, 1, 5, hostile=0.3)
        b = Citation(junk, scopusMode=True)
        ctx.check(b.bad and str(b) == junk and b != o and b == Citation(junk, scopusMode=True), 'scopus-unparsable', lambda: '{!r}: {} {!r}'.format(junk, b.bad, str(b)))
    if ctx.index % 400 == 0:
        for o in objs:
            hash(o)
        p, q = ctx.path('c.pkl'), ctx.path('o.pkl')
        with open(p, 'wb') as f:
            pickle.dump([(o, c.text) for o, c in zip(objs, cites)], f)
        lib = os.path.dirname(os.path.dirname(os.path.realpath(mk.__file__)))
        env = dict(os.environ, PYTHONHASHSEED=str(rng.randint(1, 10 ** 6)))
        subprocess.run([sys.executable, '-W', 'ignore', '-B', '-c', CHILD, lib, p, q], env=env, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        with open(q, 'rb') as f:
            out = pickle.load(f)
        ctx.count('processes')
        for (eq, h, inn, i, s), c in zip(out, cites):
            ctx.check(eq and h and inn and i == c.id and s == c.text, 'other-process', lambda: '{!r} read in another process: equal {}, hash {}, member {}, ID {!r}'.format(c.text, eq, h, inn, i))
    if same:
        ctx.sig([c.text for c in cites])
        ctx.sample([c.text for c in cites[:4]])
