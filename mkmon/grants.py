"""Grant files as described things (NSERC, CIHR, NSF and other csv)."""
import csv
import io
from xml.sax.saxutils import escape
from . import gen

NAMES = ['Rilett, Laurence', 'Bowen, WDon', 'Gagné, Richard', 'Kerr, Stephen', 'Ito, R', "O'Neil, Pat", 'Fox', 'Li, Wei', 'Smith, J']
INSTS = ['Université Laval', 'Univ Waterloo', 'Alberta Pork', 'PCL (Canada) Inc.', 'Lafarge', 'Environment Canada']
NSERC_COLS = ['Cle', 'Name-Nom', 'CoApplicantName-NomCoApplicant', 'Institution-Établissement', 'CoAppInstitution-Établissement', 'FiscalYear-Exercice financier', 'AwardAmount', 'ProvinceEN', 'Title']


class G:
    def __init__(self, type, fields, id=None, bad=False):
        self.type = type
        self.fields = fields
        self.id = id
        self.bad = bad


def csvText(header, rows, eol='\r\n'):
    f = io.StringIO()
    w = csv.writer(f, dialect='excel', lineterminator=eol)
    w.writerow(header)
    for r in rows:
        w.writerow([r.get(h, '') for h in header])
    return f.getvalue()


def val(rng, lo=1, hi=4, hostile=0.2):
    v = gen.words(rng, lo, hi, hostile=hostile, latin=True).strip()
    if rng.random() < 0.06:
        # a value over several lines
        v += rng.choice(['\n', '\n\n']) + rng.choice(['the same end', 'x', ''])
    return v


def nsercRows(rng, n, cles, cols=None):
    cols = cols or ['Cle'] + rng.sample(NSERC_COLS[1:], rng.randint(2, len(NSERC_COLS) - 1))
    rows = []
    for _ in range(n):
        r = {}
        for c in cols:
            if c == 'Cle':
                r[c] = rng.choice(cles)
            elif rng.random() < 0.2:
                r[c] = ''
            elif 'Name' in c:
                r[c] = rng.choice(['{}', '{}', '{}', '{}', '{}', '{}', ' {}', '{} ', ' {} ']).format(rng.choice(NAMES))
            elif 'nstitution' in c:
                r[c] = rng.choice(INSTS)
            elif 'Year' in c:
                r[c] = str(rng.randint(1991, 2015))
            elif c == 'AwardAmount':
                r[c] = str(rng.randint(100, 10 ** 6))
            else:
                r[c] = val(rng)
        rows.append(r)
    return cols, rows


def merge(old, new):
    """What NSERC files mean by rows with one key: the non-empty values one after the other."""
    for k, v in new.items():
        if v == '':
            continue
        if old.get(k, '') == '':
            old[k] = v
        else:
            old[k] += '; ' + v


def nserc(rng, cles=None):
    cles = cles or ['30{}'.format(rng.randint(100, 999)) for _ in range(4)]
    cols, rows = nsercRows(rng, rng.randint(1, 6), cles)
    ms = {}
    for r in rows:
        if r['Cle'] in ms:
            merge(ms[r['Cle']].fields, r)
        else:
            ms[r['Cle']] = G('NSERCGrant', dict(r), 'NSERC:' + r['Cle'])
    return csvText(cols, rows, rng.choice(['\r\n', '\n'])).encode('latin-1'), list(ms.values())


def cihr(rng):
    cols = ['PI Names'] + rng.sample(['Title', 'Institution Paid', 'Amount', 'Term', 'Keywords', 'Program', 'Res. Institution'], 4)
    rng.shuffle(cols)
    rows = []
    for _ in range(rng.randint(1, 5)):
        r = {c: val(rng, 1, 3) for c in cols}
        r['PI Names'] = '; '.join(rng.choice(NAMES) for _ in range(rng.randint(1, 3)))
        if rng.random() < 0.1:
            r['PI Names'] = ''
        rows.append(r)
    text = 'Search Criteria' + ',' * 9 + '\n' + 'x' + ',' * 9 + '\n' + ',' * 9 + '\n' + csvText(cols, rows, '\n')
    return text.encode('latin-1'), [G('CIHRGrant', dict(r), None, r['PI Names'] == '') for r in rows]


def fallback(rng):
    cols = rng.sample(['id', 'Who', 'Name', 'Amount', 'Year', 'Notes', 'Field "x"', 'Where'], rng.randint(1, 6))
    rows = []
    for _ in range(rng.randint(1, 5)):
        rows.append({c: (rng.choice(NAMES) if c in ('Who', 'Name') else val(rng, 1, 3)) for c in cols})
        if len(cols) == 1 and not rows[-1][cols[0]]:
            rows[-1][cols[0]] = 'x'
    if rng.random() < 0.3:
        rows.append(dict(rng.choice(rows)))
    return csvText(cols, rows, rng.choice(['\r\n', '\n'])).encode('latin-1'), [G('FallbackGrant', dict(r)) for r in rows]


def X(s):
    return escape(s).replace('\x85', '&#x85;')


def xval(rng, lo=1, hi=4):
    return gen.words(rng, lo, hi, hostile=0.3).strip().replace('\t', ' ') or 'x'


def nsf(rng, id=None):
    """One award; g has the repeated elements in the order of the file"""
    body = []   # (xml, [(field, value, repeated)])
    nid = id or str(rng.randint(10 ** 6, 10 ** 7))
    noId = rng.random() < 0.08
    for tag in ('AwardTitle', 'AwardEffectiveDate', 'AwardAmount', 'AbstractNarration'):
        if rng.random() < 0.8:
            v = xval(rng)
            body.append(('<{0}>{1}</{0}>'.format(tag, X(v)), [(tag, v, False)]))
    if rng.random() < 0.3:
        body.append(('<ARRAAmount/>', [('ARRAAmount', None, False)]))
    if not noId:
        body.append(('<AwardID>{}</AwardID>'.format(nid), [('AwardID', nid, False)]))
    elif rng.random() < 0.5:
        body.append((rng.choice(['<AwardID/>', '<AwardID></AwardID>']), [('AwardID', None, False)]))
    if rng.random() < 0.7:
        body.append(('<AwardInstrument>\n<Value>Standard Grant</Value>\n</AwardInstrument>', [('AwardInstrument', 'Standard Grant', True)]))
    for _ in range(rng.randint(0, 4)):
        parts = []
        first = last = None
        if rng.random() < 0.9:
            first = xval(rng, 1, 2).replace(';', '')
            parts.append(('FirstName', first))
        if rng.random() < 0.9:
            last = xval(rng, 1, 1).replace(';', '')
            parts.append(('LastName', last))
        if rng.random() < 0.3:
            parts.reverse()
        other = []
        for t, v in (('EmailAddress', 'a@b.c'), ('StartDate', '06/01/2015'), ('RoleCode', 'Principal Investigator')):
            if rng.random() < 0.7:
                parts.append((t, v))
                other.append(v)
        if rng.random() < 0.5:
            parts.append(('EndDate', None))
        # an empty element is no name
        first, last = first or None, last or None
        body.append(('<Investigator>' + ''.join('<{0}>{1}</{0}>'.format(t, X(v)) if v is not None else '<{}/>'.format(t) for t, v in parts) + '</Investigator>',
                     [('Investigator', '{}; {}'.format(' '.join(x for x in (first, last) if x is not None), ', '.join(other)), True)]))
    for _ in range(rng.randint(0, 2)):
        n = xval(rng, 1, 3)
        body.append(('<Institution><Name>{}</Name><CityName>New York</CityName><Empty/><StateCode>NY</StateCode></Institution>'.format(X(n)),
                     [('Institution', '; '.join([n, 'New York', 'NY']), True)]))
    for _ in range(rng.randint(0, 2)):
        k = len(body)
        fs = []
        x = '<Code>1</Code>'
        if rng.random() < 0.8:
            x += '<Directorate><Abbreviation/><LongName>Dir {0}</LongName><Short>D</Short></Directorate>'.format(k)
            fs.append(('Directorate', 'Dir {}; D'.format(k), True))
        elif rng.random() < 0.5:
            x += rng.choice(['<Directorate/>', '<Directorate><Abbreviation/></Directorate>'])
        if rng.random() < 0.8:
            x += '<Division><LongName>Div {0}</LongName></Division>'.format(k)
            fs.append(('Division', 'Div {}'.format(k), True))
        elif rng.random() < 0.5:
            x += rng.choice(['<Division/>', '<Division><LongName/></Division>'])
        body.append(('<Organization>' + x + '</Organization>', fs))
    for _ in range(rng.randint(0, 3)):
        c = str(rng.randint(1000, 9999))
        body.append(('<ProgramElement><Code>{}</Code><Text>DEL</Text></ProgramElement>'.format(c), [('ProgramElement', c + '; DEL', True)]))
    rng.shuffle(body)
    g = {}
    for _, fs in body:
        for k, v, many in fs:
            if many:
                g.setdefault(k, []).append(v)
            else:
                g[k] = v
    text = '<?xml version="1.0" encoding="UTF-8"?>\n\n<rootTag>\n  <Award>\n' + '\n'.join(x for x, _ in body) + '\n  </Award>\n</rootTag>\n'
    return text.encode('utf-8'), [G('NSFGrant', g, None if noId else 'NSF:' + nid, noId)]


def anyFile(rng, serial=0, kind=None, cles=None):
    """(file name, bytes, grants)"""
    kind = kind or rng.choice(['nserc', 'nserc', 'cihr', 'nsf', 'csv'])
    if kind == 'nserc':
        data, gs = nserc(rng, cles)
        return 'NSERC_{}.csv'.format(serial), data, gs
    if kind == 'cihr':
        data, gs = cihr(rng)
        return 'cihr_{}{}'.format(serial, rng.choice(['.csv', '.txt'])), data, gs
    if kind == 'nsf':
        data, gs = nsf(rng)
        return '{}.xml'.format(serial + 1000), data, gs
    data, gs = fallback(rng)
    # the name alone does not make a file one of CIHR's
    return rng.choice(['other{}.csv'] * 4 + ['cihr_{}.csv']).format(serial), data, gs
