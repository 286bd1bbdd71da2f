"""Grant files are read as the grants they list."""
import itertools
import os
import warnings
from mkmon import grants as gr, gen

ID = 'P25'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 15000, 250000
RULE = ('Random grant files of four formats (NSERC with rows of one key, CIHR, NSF, other csv; values over several lines, with quotes and foreign letters), read alone, as directories with other files, subdirectories, '
        'extensions and keys shared between files, cut at a random byte, spoiled or not grants at all, and as collections of grants; every grant is compared with the one described. Non-trivial: at least two grants.')
ASSUMPTIONS = ['Files of a directory are read in any order.', 'Grants of one ID in two files that are not NSERC ones are one, whichever.', 'A cut file still holds the rows before the cut; what becomes of the row that was cut is open.', 'Malformed grants that are equal in every field are one grant, as documented.']
REQUIRED = ['single', 'directory', 'merged_rows', 'merged_files', 'short_rows', 'no_key', 'same_end', 'multi_line', 'bad_grants', 'extension', 'refused', 'unknown_ignored', 'unknown_refused', 'cut', 'spoiled', 'junk', 'from_grants',
            'nserc', 'cihr', 'nsf', 'csv', 'empty_id', 'shared_nsf', 'subdirectory', 'named']



def nserc(rng, ctx, cles, serial):
    """An NSERC file: rows with one key, without a key, rows that end early, values over several lines"""
    cols, rows = gr.nsercRows(rng, rng.randint(1, 6), cles)
    if rng.random() < 0.3:
        cols = cols[1:] + ['Cle']
    if rng.random() < 0.2:
        rng.shuffle(cols)
    out = []
    for i, r in enumerate(rows):
        r = dict(r)
        if rng.random() < 0.08:
            r['Cle'] = ''
            r[[c for c in cols if c != 'Cle'][0]] = 'x{}-{}'.format(serial, i)
            ctx.count('no_key')
            if rng.random() < 0.5 and cols[-1] != 'Cle':
                # rows that end in the same line are still different ones
                r[cols[-1]] = '{}\nthe same end'.format(r[cols[-1]])
                ctx.count('same_end')
        elif rng.random() < 0.15:
            c = rng.choice(cols)
            if c != 'Cle':
                r[c] = 'one\ntwo, "three"'
                ctx.count('multi_line')
        out.append((r, None))
    lines = gr.csvText(cols, [], '\n')
    short = {}
    for i, (r, _) in enumerate(out):
        line = gr.csvText(cols, [r], '\n')[len(lines):]
        if rng.random() < 0.06 and '"' not in line:
            k = rng.randint(1, len(cols) - 1)
            if [x for x in [r[c] for c in cols[:k]] if x] and ('Cle' in cols[:k] or 'x{}-{}'.format(serial, i) in [r[c] for c in cols[:k]] or rng.random() < 0.5):
                line = ','.join(line.split(',')[:k]) + '\n' if not any(',' in r[c] for c in cols) else line
                if line.count(',') == k - 1:
                    short[i] = cols[k:]
                    ctx.count('short_rows')
        out[i] = (r, line)
    data = lines + ''.join(l for _, l in out)
    gs = {}
    for i, (r, line) in enumerate(out):
        f = {c: (v if c not in short.get(i, ()) else '') for c, v in r.items()}
        key = f['Cle']
        if key == '':
            gs[('line', line, serial)] = gr.G('NSERCGrant', f, None, True)
            # equal lines without a key are one grant
        elif key in gs:
            gr.merge(gs[key].fields, f)
            ctx.count('merged_rows')
        else:
            gs[key] = gr.G('NSERCGrant', f, 'NSERC:' + key)
    if len({k[1] for k in gs if isinstance(k, tuple)}) < sum(1 for i, (r, _) in enumerate(out) if (r['Cle'] if 'Cle' not in short.get(i, ()) else '') == ''):
        return None
    return data.replace('\n', rng.choice(['\n', '\r\n'])).encode('latin-1'), list(gs.values())


def make(rng, ctx, serial, cles, awards, kind=None):
    kind = kind or rng.choice(['nserc', 'nserc', 'cihr', 'nsf', 'csv'])
    ctx.count(kind)
    if kind == 'nserc':
        got = None
        while got is None:
            got = nserc(rng, ctx, cles, serial)
        return kind, 'NSERC_{}{}'.format(serial, rng.choice(['.csv', '.csv', '.txt'])), got[0], got[1]
    if kind == 'nsf':
        data, gs = gr.nsf(rng, rng.choice(awards))
        ctx.count('empty_id', int('AwardID' in gs[0].fields and gs[0].bad))
        return kind, '{}.xml'.format(serial + 1000), data, gs
    name, data, gs = gr.anyFile(rng, serial, kind)
    return kind, name, data, gs


def norm(f):
    return {k: ('' if v is None else v) for k, v in f.items()}


def view(G):
    f = norm(G)
    return (type(G).__name__, tuple(sorted((str(k), tuple(v) if isinstance(v, list) else v) for k, v in f.items())), bool(G.bad))


def want(g):
    f = norm(g.fields)
    return (g.type, tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in f.items())), bool(g.bad))


def distinct(gs):
    """Malformed grants with the same values are one"""
    seen, out = set(), []
    for g in gs:
        k = repr(list(g.fields.values())) if g.bad else None
        if k is None or k not in seen:
            out.append(g)
        seen.add(k)
    return out


def compare(ctx, GC, gs, kind):
    gs = distinct(gs)
    got = sorted((view(G) for G in GC), key=repr)
    exp = sorted((want(g) for g in gs), key=repr)
    if not ctx.eq(got, exp, kind):
        return False
    ids = [G.id for G in GC]
    ctx.eq(len(set(ids)), len(ids), 'ids-repeat')
    ctx.eq(len(GC), len(gs), 'length')
    given = sorted(g.id for g in gs if g.id)
    have = sorted(i for i in ids if i in set(given))
    ctx.eq(have, given, 'ids')
    for G in GC:
        ctx.check(isinstance(G.id, str) and G.id != '', 'id', lambda: repr(G.id))
        ctx.check((G.error is not None) == bool(G.bad), 'error', lambda: repr((G.bad, G.error)))
        ctx.count('bad_grants', int(bool(G.bad)))
        ctx.check(GC.getID(G.id) is G, 'lookup', G.id)
    ctx.eq(sorted(GC._collectedTypes), sorted({g.type for g in gs}), 'types') if gs else None
    if len(gs) > 1:
        ctx.sig([repr(x) for x in exp])
        ctx.sample({'grants': len(gs), 'first': repr(exp[0])[:300]})
    return True


def single(rng, ctx, mk):
    ctx.count('single')
    kind, name, data, gs = make(rng, ctx, rng.randint(0, 9), [str(rng.randint(10, 14)) for _ in range(3)], [None])
    stem, end = os.path.splitext(name)
    name = stem + rng.choice(['', '', '.v2', '.csv', ' of 2016']) + end
    p = ctx.write(ctx.path(name), data) or ctx.path(name)
    ext = rng.choice(['', '', os.path.splitext(name)[1], name[-2:]])
    given = rng.choice(['', '', 'mine'])
    GC = mk.GrantCollection(p, name=given, extension=ext)
    if ext:
        ctx.count('extension')
    ctx.count('named', int(bool(given)))
    ctx.eq(GC.name, given or os.path.splitext(name)[0], 'name')
    ctx.eq((GC.bad, GC.errors), (False, {}), 'collection-bad')
    compare(ctx, GC, gs, 'single-' + kind)
    for G in GC:
        ctx.eq(G.sourceFile, p, 'source')
    bad = rng.choice(['.isi', name + 'x', 'z'])
    try:
        mk.GrantCollection(p, extension=bad)
        ctx.fail('extension-accepted', '{} for {}'.format(bad, name))
    except mk.GrantCollectionException:
        ctx.count('refused')
    # the grants make the same collection again
    gl = list(GC)
    again = mk.GrantCollection(rng.choice([lambda: gl, lambda: set(gl), lambda: iter(gl + gl[:1]), lambda: GC])())
    ctx.count('from_grants')
    ctx.eq({id(G) for G in again}, {id(G) for G in GC}, 'from-grants')
    ctx.eq(again._collectedTypes, {type(G).__name__ for G in gl}, 'from-grants-types')


def directory(rng, ctx, mk):
    ctx.count('directory')
    d = ctx.newdir(rng.choice(['d', 'my grants', 'a.csv']))
    cles = [str(rng.randint(10, 16)) for _ in range(rng.randint(1, 5))]
    awards = [None, '777', '888']
    files = []
    for i in range(rng.randint(0, 5)):
        kind, name, data, gs = make(rng, ctx, i, cles, awards)
        ctx.write(os.path.join(d, name), data)
        files.append((kind, name, gs))
    if rng.random() < 0.3:
        sub = os.path.join(d, 'sub.csv')
        os.mkdir(sub)
        ctx.write(os.path.join(sub, 'other9.csv'), b'a,b\n1,2\n')
        ctx.count('subdirectory')
    junk = rng.random() < 0.4
    jext = rng.choice(['.txt', '.csv', '.xml', '.dat'])
    if junk:
        ctx.write(os.path.join(d, 'readme' + jext), rng.choice([b'', b'hello\n', b'\x89PNG\r\n\x1a\n\x00\x00' if jext != '.csv' else b'\x89PNG', b'<a><b/></a>', b'<a>', 'naïve'.encode('utf-8')]))
    ext = rng.choice(['', '', '', '.csv', '.xml', '.txt', 'csv'])
    given = rng.choice(['', '', 'mine'])
    taken = [f for f in files if f[1].endswith(ext)]
    GC = err = None
    there = sorted(os.listdir(d))
    try:
        GC = mk.GrantCollection(d, name=given, extension=ext)
    except mk.BadInputFile as e:
        err = e
    ctx.eq(sorted(os.listdir(d)), there, 'files-left', 'the files in a directory that was read')
    if ext and junk and jext.endswith(ext.strip('.')):
        ctx.count('unknown_refused')
        ctx.check(err is not None, 'unknown-accepted', 'a file that holds no grants was read with extension {!r}'.format(ext))
        return
    if not ctx.check(err is None, 'refused', repr(err)):
        return
    if ext:
        ctx.count('extension')
    ctx.count('unknown_ignored', int(junk))
    ctx.count('named', int(bool(given)))
    ctx.eq(GC.name, given or ('{}-files-from-{}'.format(ext, d) if ext else 'files-from-{}'.format(d)), 'name')
    ctx.eq((GC.bad, GC.errors), (False, {}), 'collection-bad')
    # NSERC files in any order
    ns = [f[2] for f in taken if f[0] == 'nserc']
    options = []
    for perm in itertools.permutations(ns):
        ms = {}
        lone = []
        for gs in perm:
            for g in gs:
                if g.id is None:
                    lone.append(g)
                elif g.id in ms:
                    gr.merge(ms[g.id].fields, g.fields)
                else:
                    ms[g.id] = gr.G(g.type, dict(g.fields), g.id, g.bad)
        options.append(list(ms.values()) + lone)
    if len(ns) > 1 and len({g.id for gs in ns for g in gs if g.id}) < sum(1 for gs in ns for g in gs if g.id):
        ctx.count('merged_files')
    rest = [g for f in taken if f[0] not in ('nserc', 'nsf') for g in f[2]]
    nsfs = {}
    for f in taken:
        if f[0] == 'nsf':
            nsfs.setdefault(f[2][0].id or id(f[2][0]), []).append(f[2][0])
    ctx.count('shared_nsf', int(any(len(x) > 1 for x in nsfs.values())))
    got = sorted((view(G) for G in GC), key=repr)
    for o in options:
        for choice in itertools.product(*nsfs.values()):
            gs = distinct(o + rest + list(choice))
            if sorted((want(g) for g in gs), key=repr) == got:
                compare(ctx, GC, gs, 'directory')
                return
    gs = options[0] + rest + [x[0] for x in nsfs.values()]
    compare(ctx, GC, gs, 'directory')


def cut(rng, ctx, mk):
    """A file that ends early still holds the rows before"""
    kind = rng.choice(['cihr', 'csv', 'nserc', 'nsf'])
    kind, name, data, gs = make(rng, ctx, 1, [str(i) for i in range(10, 60)], [None], kind)
    how = rng.choice(['cut', 'cut', 'spoil'])
    if how == 'cut':
        k = rng.randint(0, len(data) - 1)
        data2 = data[:k]
        ctx.count('cut')
    else:
        b = bytearray(data)
        for _ in range(rng.randint(1, 4)):
            b[rng.randrange(len(b))] = rng.choice([0, 10, 13, 34, 44, 60, 62, 128, 255, rng.randrange(256)])
        data2 = bytes(b)
        ctx.count('spoiled')
    p = ctx.path(name)
    ctx.write(p, data2)
    try:
        GC = mk.GrantCollection(p)
    except mk.BadInputFile:
        ctx.count('refused')
        if how == 'cut' and kind in ('csv', 'nserc'):
            # some whole rows are left
            lines = data2.split(b'\n')
            ctx.check(len(lines) < 3 or b'"' in data2, 'cut-refused', lambda: 'a file with whole rows was refused: {!r}'.format(data2))
        return
    for G in GC:
        len(G), G.id, str(G), repr(G), list(G.items())
        G.getInvestigators(), G.getInstitutions()
    if how == 'cut' and kind in ('cihr', 'csv'):
        rows = len([g for g in gs])
        head = [want(g) for g in gs]
        got = {view(G) for G in GC}
        # rows in front of the one that was cut
        n = 0
        if b'\n' not in b''.join(str(v).encode('utf-8') for g in gs for v in g.fields.values()):
            n = data2.count(b'\n') - (4 if kind == 'cihr' else 1)
        for w in head[:max(0, min(n, rows))]:
            ctx.check(w in got, 'cut-row-lost', lambda: '{} of a cut file'.format(w))


def other(rng, ctx, mk):
    ctx.count('junk')
    what = rng.choice(['bytes', 'bytes', 'bytes', 'missing', 'thing', 'list', 'records', 'scopus'])
    try:
        if what == 'bytes':
            p = ctx.path(rng.choice(['NSERC_a.csv', 'cihr_a.csv', 'a.xml', 'a.csv', 'a', 'a.txt']))
            ctx.write(p, rng.choice([b'', b'\n', b'\n\n\n', b'\x00', bytes(rng.randrange(256) for _ in range(rng.randint(1, 60))), b'"', b'a', b'a,b', b'a,b\n1,2,3\n', b'a,a\n1,2\n', b'\xef\xbb\xbfa,b\n1,2\n',
                                     b'a,b\n' + b'x' * 140000 + b',2\n', b'Search Criteria\n,,,,,,,,,\n,,,,,,,,,\nPI Names\n' + b'x' * 140000 + b'\n', *[('<?xml version="1.0" encoding="{}"?><a/>'.format(e)).encode() for e in ('nope', 'utf-7', 'big5', 'utf-32', 'idna', 'rot13')],
                                     b'<?xml version="1.0" encoding="UTF-8"?><rootTag><Award/></rootTag>', b'<r><Award/><Award/></r>', b'<r><Award><Investigator/></Award></r>',
                                     '<?xml version="1.0" encoding="UTF-16"?><r><Award><AwardID>5</AwardID></Award></r>'.encode('utf-16')]))
            data = ctx.read(p)
            GC = mk.GrantCollection(p)
            ctx.check(not (p.endswith('.xml') and data.count(b'<Award>') + data.count(b'<Award/>') != 1 and b'\x00' not in data), 'not-one-award', lambda: 'an xml file without exactly one award was read as grants: {!r}'.format(data))
            for G in GC:
                len(G), G.id, G.getInvestigators(), G.getInstitutions()
            ctx.check(len(GC) > 0 or GC.bad or p.startswith('cihr') or 'cihr' in p, 'nothing-silently', lambda: 'no grant and no error from {!r}'.format(ctx.read(p)[:200]))
            return
        if what == 'scopus':
            # records are no grants
            mk.GrantCollection(ctx.write(ctx.path('scopus.csv'), gen.scoFile([gen.sco(rng, set()) for _ in range(rng.randint(1, 3))])))
        elif what == 'missing':
            mk.GrantCollection(ctx.path('no such file'))
        elif what == 'thing':
            mk.GrantCollection(rng.choice([5, 1.5, object()]))
        elif what == 'list':
            mk.GrantCollection(rng.choice([[1], ['a'], [None], [mk.WOSRecord('PT J\nUT WOS:1\nER\n')]]))
        else:
            mk.GrantCollection([mk.MedlineRecord('PMID- 1\n')])
        ctx.fail('accepted', what)
    except (mk.BadInputFile, mk.GrantCollectionException):
        ctx.count('refused')


def case(rng, ctx):
    import metaknowledge as mk
    warnings.simplefilter('ignore')
    rng.choice([single, single, directory, directory, cut, other])(rng, ctx, mk)
