"""Damaged files: nothing intact is lost or changed, and nothing is lost without being reported."""
import collections
from mkmon import gen
from mkmon.ref import rawDict

ID = 'P04'
LEVEL = 'fault_enumeration'
QUICK_N, THOROUGH_N = 50000, 800000
RULE = ('Generated WOS, Medline, Scopus and ProQuest files are damaged in one of: cut at a byte, one line dropped, doubled, shortened, mangled or inserted, two records run together, '
        'a field removed or repeated, a byte that is not text, junk after the end. Non-trivial: the damage hit a file holding two or more records.')
ASSUMPTIONS = ['Medline and Scopus have no end marker: a cut that leaves a well-formed shorter last record cannot be told from a real one, so only what precedes the cut is checked.',
               'Undecodable bytes may cost the records sharing the read buffer; the loss must be reported.']
REQUIRED = ['faults_wos', 'faults_medline', 'faults_scopus', 'faults_proquest', 'reported', 'intact_kept', 'cut_points', 'decode_faults', 'by_hand', 'cut_records']


def content(R):
    return rawDict(R)


def read(ctx, data, name, what):
    """The collection, or None when the file was refused as a whole with the documented error."""
    import metaknowledge as mk
    p = ctx.write(ctx.path(name), data)
    try:
        return p, mk.RecordCollection(p)
    except mk.BadInputFile:
        ctx.count('refused')
        return p, None


def judge(ctx, RC, p, want, touched, mode, mustReport, allowLoss=False, tell='', whole=False):
    """want: id -> content of the undamaged file; touched: ids the damage may have changed."""
    if RC is None:
        ctx.check(mode == 'any' or mode == 'head', 'refused-whole', tell + ': the whole file was refused')
        return
    reported = (RC.bad and p in RC.errors) or any(R.bad for R in RC)
    ctx.check(bool(RC.bad) == bool(RC.errors), 'flag-without-error', lambda: '{}: bad={} errors={}'.format(tell, RC.bad, RC.errors))
    for k in RC.errors:
        ctx.eq(k, p, 'error-key')
    got = collections.defaultdict(list)
    for R in RC:
        if R.bad:
            ctx.check(R.error is not None, 'bad-without-error', tell + ': bad record without an error')
        else:
            got[R.id].append(content(R))
    lost = [i for i in want if i not in touched and got.get(i) != [want[i]]]
    ctx.count('intact_kept', len(want) - len(set(want) & set(touched)) - len(lost))
    if not allowLoss:
        ctx.check(not lost, 'intact-lost', lambda: '{}: intact records lost or changed: {} got {}'.format(tell, lost, {i: got.get(i) for i in lost[:1]}))
    else:
        changed = [i for i in lost if i in got]
        ctx.check(not changed, 'intact-changed', lambda: '{}: intact records changed: {}'.format(tell, changed))
    wrong = [i for i in touched if i in want and got.get(i) != [want[i]]]
    if whole:
        # where records have an end mark what is cut off does not pass for a record
        part = [i for i in touched if i in want and got.get(i, [want[i]]) != [want[i]]]
        ctx.count('cut_records', len(touched))
        ctx.check(not part, 'part-passes', lambda: '{}: parts of records {} pass for records: {}'.format(tell, part, {i: got[i] for i in part[:1]}))
    if mustReport or (lost and allowLoss):
        ctx.check(reported, 'silent', lambda: '{}: nothing reported (lost {}, damaged {})'.format(tell, lost, wrong))
    elif mustReport is None and wrong and any(i not in got for i in wrong):
        ctx.check(reported, 'silent', lambda: '{}: record gone and nothing reported'.format(tell))
    if reported:
        ctx.count('reported')


def wosCase(rng, ctx):
    used = set()
    pools = gen.Pools(rng)
    recs = [gen.wos(rng, pools) if rng.random() < 0.7 else gen.hostileWos(rng, used | pools.used) for _ in range(rng.randint(1, 5))]
    ids = set()
    recs = [r for r in recs if not (r.id in ids or ids.add(r.id))]
    sep = rng.choice(['\n', '\n', ''])
    head = rng.choice(gen.WOS_HEADS)
    want = {r.id: {k: list(v) for k, v in r.tags.items()} for r in recs}
    ctx.count('faults_wos')
    kind = rng.choice(['cut', 'cut', 'cut', 'dropline', 'mangle', 'blank', 'dup', 'noUT', 'noER', 'cont', 'noEF', 'bytes', 'after', 'short'])
    if len(recs) > 1:
        ctx.sig(kind, sorted(want), rng.random())
    if kind == 'cut':
        data = gen.wosFile(recs, head, 'EF\n', sep).encode('utf-8')
        t = rng.randint(0, len(data) - 3)          # at least the EF line is damaged
        ctx.count('cut_points')
        p, RC = read(ctx, data[:t], 'a.isi', kind)
        off = len(head.encode())
        touched = []
        for r in recs:
            off += len(r.text().encode('utf-8'))
            if off > t:                            # an ER line without its newline is not a finished record
                touched.append(r.id)
            off += len(sep)
        judge(ctx, RC, p, want, touched, 'head' if t < len(head.encode()) else '', True, tell='cut at {} of {}'.format(t, len(data)), whole=True)
        return
    k = rng.randrange(len(recs))
    texts = [r.text() for r in recs]
    lines = texts[k].split('\n')[:-1]        # the last is ER
    touched = [recs[k].id]
    must = True
    end = 'EF\n'
    allow = False
    data = None
    if kind == 'mangle':                       # a tag line without the separating space
        i = rng.choice([j for j, l in enumerate(lines[:-1]) if not l.startswith('   ')])
        lines[i] = lines[i][:2] + rng.choice(['x', '-', '\t', ':']) + lines[i][3:]
    elif kind == 'blank':                      # an empty line inside the record
        lines.insert(rng.randint(1, len(lines) - 1), '')
    elif kind == 'short':
        i = rng.randrange(len(lines) - 1)
        lines[i] = lines[i][:1]
    elif kind == 'dup':
        i = rng.choice([j for j, l in enumerate(lines[:-1]) if not l.startswith('   ')])
        lines.append(lines[i][:2] + ' again')
        lines.append(lines.pop(lines.index('ER', len(lines) - 3)))
    elif kind == 'noUT':
        i = [j for j, l in enumerate(lines) if l.startswith('UT ')][0]
        del lines[i]
        if len(lines) == 1:
            lines.insert(0, 'TI x')
    elif kind == 'noER':
        lines.pop()
        if k + 1 < len(recs):
            touched.append(recs[k + 1].id)
        else:
            pass
    elif kind == 'cont':
        lines.insert(0, '   lost line')
    elif kind == 'dropline':                   # dropping one whole field line cannot be seen, except by what it leaves
        i = rng.randrange(len(lines) - 1)
        del lines[i]
        must = None
        if not any(l.startswith('UT ') for l in lines):
            must = True
    elif kind == 'noEF':
        end = rng.choice(['', '\n'])
        touched = []
    elif kind == 'after':
        end = 'EF\n' + rng.choice(['junk\n', 'PT J\nER\n', '\n'])
        touched = []
    elif kind == 'bytes':
        touched = [recs[k].id]
        texts[k] = '\n'.join(lines) + '\n'
        pre = (head + sep.join(texts[:k]) + (sep if k else '')).encode('utf-8')
        body = (texts[k] + sep + ''.join(x + sep for x in texts[k + 1:]) + end).encode('utf-8')
        cut = rng.randint(0, len(texts[k].encode('utf-8')) - 1)
        pad = b'\n' * (9000 if rng.random() < 0.5 and not k else 0)
        data = pre + pad + body[:cut] + rng.choice([b'\xff', b'\xfe\xfa', b'\x80']) + body[cut:]
        ctx.count('decode_faults')
        allow = True
    if data is None:
        texts[k] = '\n'.join(lines) + '\n'
        data = (head + ''.join(x + sep for x in texts) + end).encode('utf-8')
    p, RC = read(ctx, data, 'a.isi', kind)
    judge(ctx, RC, p, want, touched, 'any' if kind == 'bytes' else '', must, allow, tell='wos {} record {}/{}'.format(kind, k, len(recs)))


def medCase(rng, ctx):
    used = set()
    recs = [gen.med(rng, used, hostile=0.15) for _ in range(rng.randint(1, 5))]
    want = {r.id: dict(r.tags) for r in recs}
    ctx.count('faults_medline')
    kind = rng.choice(['cut', 'cut', 'mangle', 'blank', 'noPMID', 'join', 'junk', 'tail'])
    if len(recs) > 1:
        ctx.sig(kind, sorted(want), rng.random())
    texts = [r.text() for r in recs]
    if kind == 'cut':
        data = ('\n' + '\n'.join(texts) + '\n').encode('latin-1')
        t = rng.randint(0, len(data) - 2)
        ctx.count('cut_points')
        p, RC = read(ctx, data[:t], 'a.medline', kind)
        off = 1
        touched = []
        for r, x in zip(recs, texts):
            off += len(x)
            if off - 1 > t:
                touched.append(r.id)
            off += 1
        judge(ctx, RC, p, want, touched, 'head' if t < 9 else '', False, tell='medline cut at {} of {}'.format(t, len(data)))
        return
    k = rng.randrange(len(recs))
    lines = texts[k].split('\n')[:-1]
    touched = [recs[k].id]
    seps = ['\n'] * len(recs)
    must = True
    if kind == 'mangle':
        i = rng.choice([j for j, l in enumerate(lines) if not l.startswith('      ')])
        if i == 0:
            i = 1
        lines[i] = rng.choice(['', '**', 'ab']) + lines[i][:3].replace('-', 'x') + '+' + lines[i][5:]
    elif kind == 'blank':
        lines.insert(rng.randint(1, len(lines) - 1), '')
    elif kind == 'noPMID':
        if len(recs) == 1:
            return
        if k == 0:
            k = 1
            lines = texts[k].split('\n')[:-1]
            touched = [recs[k].id]
        del lines[0]
    elif kind == 'join':
        if k + 1 >= len(recs):
            return
        seps[k] = ''
        touched.append(recs[k + 1].id)
    elif kind == 'junk':
        seps[k] = '\n' + rng.choice(['junk line\n', '<html>\n', 'TI  - no record\n', '      lost line\n', '      lost\n      lines\n', '  x\n', '\n      lost line\n'])
        touched = []
    elif kind == 'tail':
        k = len(recs) - 1
        lines = texts[k].split('\n')[:-1]
        seps[k] = rng.choice(['\n\nendless\n', '\n      endless\n'])
        touched = []
    texts[k] = '\n'.join(lines) + '\n'
    data = ('\n' + ''.join(x + s for x, s in zip(texts, seps))).encode('latin-1')
    p, RC = read(ctx, data, 'a.medline', kind)
    judge(ctx, RC, p, want, touched, '', must, tell='medline {} record {}/{}'.format(kind, k, len(recs)))


def scoCase(rng, ctx):
    used = set()
    recs = [gen.sco(rng, used, quotes=False) for _ in range(rng.randint(1, 5))]
    want = {r.id: dict(r.tags) for r in recs}
    ctx.count('faults_scopus')
    kind = rng.choice(['cut', 'cut', 'fewer', 'more', 'blank', 'noEID', 'bytes', 'junk'])
    if len(recs) > 1:
        ctx.sig(kind, sorted(want), rng.random())
    texts = [r.text() for r in recs]
    head = '\ufeff' + ','.join(gen.SCOPUS_HEADER) + '\n'
    if kind == 'cut':
        data = (head + ''.join(texts)).encode('utf-8')
        t = rng.randint(0, len(data) - 2)
        ctx.count('cut_points')
        p, RC = read(ctx, data[:t], 'a.csv', kind)
        off = len(head.encode('utf-8'))
        touched = []
        must = False
        for r, x in zip(recs, texts):
            n = len(x.encode('utf-8'))
            if off + n - 1 > t:
                touched.append(r.id)
                # too few fields are left (commas inside a quoted field that is cut could make up for them)
                if off < t < off + n - len(r.tags['EID']) - 3 and x.encode('utf-8')[:t - off].count(b',') < 41:
                    must = True
            off += n
        judge(ctx, RC, p, want, touched, 'head' if t < len(head.encode('utf-8')) else '', must, tell='scopus cut at {} of {}'.format(t, len(data)))
        return
    k = rng.randrange(len(recs))
    touched = [recs[k].id]
    x = texts[k][:-1]
    allow = False
    if kind == 'fewer':
        x = x.replace(',,', ',', 1)
        if x == texts[k][:-1]:
            return
    elif kind == 'more':
        x = 'extra,' + x
    elif kind == 'blank':
        x = x + '\n'
        touched = []
    elif kind == 'noEID':
        x = x[:-len(recs[k].tags['EID'])]
    elif kind == 'junk':
        x = x + '\n<html>'
        touched = []
    if kind == 'bytes':
        pre = (head + ''.join(texts[:k])).encode('utf-8')
        body = ''.join(texts[k:]).encode('utf-8')
        cut = rng.randint(0, len(texts[k].encode('utf-8')) - 1)
        data = pre + body[:cut] + b'\xff' + body[cut:]
        allow = True
        ctx.count('decode_faults')
    else:
        texts[k] = x + '\n'
        data = (head + ''.join(texts)).encode('utf-8')
    p, RC = read(ctx, data, 'a.csv', kind)
    judge(ctx, RC, p, want, touched, 'any' if kind == 'bytes' else '', True, allow, tell='scopus {} record {}/{}'.format(kind, k, len(recs)))


def proCase(rng, ctx):
    used = set()
    recs = [gen.pro(rng, used) for _ in range(rng.randint(1, 4))]
    titles = set()
    recs = [r for r in recs if not (r.tags['Title'][0] in titles or titles.add(r.tags['Title'][0]))]
    want = {r.id: {k: list(v) for k, v in r.tags.items()} for r in recs}
    ctx.count('faults_proquest')
    kind = rng.choice(['cut', 'cut', 'title', 'noid', 'junk', 'nobar'])
    if len(recs) > 1:
        ctx.sig(kind, sorted(want), rng.random())
    text = gen.proFile(recs)
    starts = [text.index('Document {} of'.format(i)) for i in range(1, len(recs) + 1)] + [text.index('Bibliography\n\nCitation')]
    if kind == 'cut':
        data = text.encode('utf-8')
        t = rng.randint(0, len(text[:starts[-1]].encode('utf-8')) + len('Bibliography') - 1)
        ctx.count('cut_points')
        p, RC = read(ctx, data[:t], 'a.txt', kind)
        touched = [r.id for r, s in zip(recs, starts[1:]) if len(text[:s].encode('utf-8')) > t]
        judge(ctx, RC, p, want, touched, 'head' if t < 96 else '', True, tell='proquest cut at {}'.format(t), whole=True)
        return
    k = rng.randrange(len(recs))
    body = text[starts[k]:starts[k + 1]]
    touched = [r.id for r in recs[k:]]
    if kind == 'title':
        body = body.replace('\nTitle: ', '\nTitle: Other ')
    elif kind == 'noid':
        body = '\n'.join(l for l in body.split('\n') if not l.startswith('ProQuest document ID'))
        touched = [recs[k].id]
    elif kind == 'junk':
        body = 'junk\n' + body
    elif kind == 'nobar':
        body = body.replace(gen.BAR + '\n', '')
    data = text[:starts[k]] + body + text[starts[k + 1]:]
    p, RC = read(ctx, data, 'a.txt', kind)
    judge(ctx, RC, p, want, touched, '', True, tell='proquest {} record {}/{}'.format(kind, k, len(recs)))


def byHand(rng, ctx):
    """A record put together without its identifier is malformed and says so"""
    import io
    import metaknowledge as mk
    ctx.count('by_hand')
    T, d = rng.choice([(mk.MedlineRecord, {'TI': ['x']}), (mk.MedlineRecord, {}), (mk.MedlineRecord, 'TI  - x\n\n'), (mk.WOSRecord, {'TI': ['x']}), (mk.WOSRecord, {}), (mk.WOSRecord, 'PT J\nTI x\nER\n'),
                       (mk.ScopusRecord, {'Title': 'x'}), (mk.ScopusRecord, {}), (mk.ProQuestRecord, {'Title': ['x']}), (mk.ProQuestRecord, {})])
    R = T(d)
    ctx.check(bool(R.bad) and isinstance(R.error, mk.mkException), 'by-hand', lambda: '{}({!r}): bad {!r}, error {!r}'.format(T.__name__, d, R.bad, R.error))
    try:
        R.writeRecord(io.StringIO())
    except mk.mkException:
        pass
    except AttributeError:
        ctx.check(T is mk.ProQuestRecord, 'by-hand-write', T.__name__)
    else:
        ctx.fail('by-hand-write', '{}({!r}) was written'.format(T.__name__, d))


def case(rng, ctx):
    if rng.random() < 0.01:
        byHand(rng, ctx)
    rng.choice([wosCase, wosCase, medCase, scoCase, proCase])(rng, ctx)
