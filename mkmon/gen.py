"""Workload generators.  Every record is built from an abstract description first; the text the
package reads is rendered from it here, so what a record *means* never depends on the package."""
import collections

MISSING = '<missing>'

# ------------------------------------------------------------------ words and values

WORDS = ('social network analysis of the science quantum dots energy laser model theory data method cell protein growth '
         'paper result new large small time field order phase high low light heat').split()
HOSTILE = ['"quoted"', "O'Neil", '{brace}', '}', '{', '\\slash', 'a;b', 'semi; colon', 'com,ma', 'Ünïcode', 'naïve', '漢字', 'Ωmega',
           'ER', 'EF', 'ER ', 'tab\there', 'dash-ed', '(paren)', '[brack]', '$x^2$', '%', '&amp;', '...', '#', 'PT J', '|pipe|', '   ', 'x  y',
           "''", '""', '=', '@', '1234', '-', 'É', 'ß', '\u2028', '\x85', 'VR 1.0', 'FN', 'a_b', '~', '\u00a0']
# 'VR 1.0' near the top is how WOS files are recognised, so other formats do not get it
LATIN_HOSTILE = [h for h in HOSTILE if all(ord(c) < 256 for c in h) and h != 'VR 1.0']


def words(rng, lo=1, hi=6, hostile=0.0, latin=False):
    out = []
    for _ in range(rng.randint(lo, hi)):
        if rng.random() < hostile:
            out.append(rng.choice(LATIN_HOSTILE if latin else HOSTILE))
        else:
            w = rng.choice(WORDS)
            out.append(w.title() if rng.random() < 0.2 else w)
    return ' '.join(out)


SURNAMES = ['Smith', 'Jones', 'Gómez', 'Müller', 'Li', 'O\'Brien', 'van der Berg', 'Garfield', 'Price', 'Merton', 'Nguyen', 'Kessler', 'de Solla',
            'Åberg', 'Small', 'Abbott', 'McLevey', 'Zhao-Li', 'Ito', 'Fox']
FIRST = ['Mary', 'Anna', 'Wei', 'Robin', 'John', 'Peter', 'Élodie', 'Jean', 'Olga', 'Ali', 'Anne-Marie', 'Xq', 'Zebulon']
JKNOWN = ['J CHEM PHYS', 'NATURE', 'SCIENCE', 'PHYS REV LETT', 'ANN PHYS', 'OPT LETT', 'LANCET', 'CELL', 'SCIENTOMETRICS', 'SOC NETWORKS']
JUNKNOWN = ['THESIS U WATERLOO', 'HIST GLASS', 'UNPUB', 'MY OWN Q', 'ARXIV', 'Z. PHYS.', 'J-NET', 'ACTA (B)', 'VERY NEW J', 'PROC X']


def uniq(seq):
    return list(collections.OrderedDict.fromkeys(seq))


class Author:
    def __init__(self, rng, plain=True):
        s = rng.choice(SURNAMES)
        f = rng.choice(FIRST)
        if rng.random() < 0.5:
            mid = ' ' + rng.choice('ABCDEFG') + '.'
        else:
            mid = ''
        self.full = '{}, {}{}'.format(s, f, mid)
        self.short = '{}, {}{}'.format(s, f[0], mid.strip(' .'))
        self.first = f
        if rng.random() < 0.06:
            self.full = s            # no first name at all
            self.short = s
            self.first = None


def authorPool(rng, n):
    seen = {}
    while len(seen) < n:
        a = Author(rng)
        key = a.full
        if key in seen:
            a.full = '{}, {} {}'.format(a.full.split(',')[0], (a.first or 'Q'), rng.choice('HIJKLMNOP') + rng.choice('QRSTUVW'))
            a.first = a.first or 'Q'
        if a.full not in seen:
            seen[a.full] = a
    return list(seen.values())


# ------------------------------------------------------------------ WOS style citations

class Cit:
    """A citation as its components; `text` is what a file holds, the rest what it must mean."""

    def __init__(self, author=None, year=None, journal=None, vol=None, page=None, doi=None, misc=None):
        self.parts = (author, year, journal, vol, page, doi, misc)
        p = []
        if author is not None:
            p.append(author)
        if year is not None:
            p.append(str(year))
        if journal is not None:
            p.append(journal)
        if vol is not None:
            p.append('V' + vol)
        if page is not None:
            p.append('P' + page)
        if misc is not None:
            p.append(misc)
        if doi is not None:
            p.append('DOI ' + doi)
        self.text = ', '.join(p)
        self.author = None if author is None else author.upper().replace('.', '').title()
        self.year = year
        self.journal = None if journal is None else journal.upper()
        self.V = None if vol is None else ('V' + vol).upper()
        self.P = None if page is None else ('P' + page).upper()
        self.DOI = None if doi is None else doi.upper()
        self.misc = None if misc is None else misc.upper()
        self.bad = misc is not None or author is None or year is None or journal is None

    @property
    def id(self):
        l = []
        if self.author:
            l.append(self.author)
        if self.year is not None and (not self.bad or self.year):
            l.append(str(self.year))
        if self.journal:
            l.append(self.journal)
        return ', '.join(l)

    @property
    def anonymous(self):
        return self.author == '[Anonymous]'

    def variant(self, rng):
        """Another spelling of a citation to the same thing."""
        a, y, j, v, p, d, m = self.parts
        if m is not None or self.bad:
            return self
        if a is not None:
            a = rng.choice([a, a.upper(), a.lower(), a.replace(' ', ' ')])
            if rng.random() < 0.3 and not a.endswith('.'):
                a = a + '.'
        if j is not None:
            j = rng.choice([j, j.lower(), j.title(), j.upper()])
        if rng.random() < 0.4:
            v = rng.choice([None, '7', v])
        if rng.random() < 0.4:
            p = rng.choice([None, '99', p])
        if rng.random() < 0.3:
            d = rng.choice([None, '10.1000/xyz', d])
        return Cit(a, y, j, v, p, d, m)


def citAuthor(rng):
    s = rng.choice(['SMITH', 'Jones', 'GARFIELD', 'Price', 'MERTON', 'Small', 'KESSLER', 'Müller', "O'BRIEN", 'de la Cruz', 'VAN RAAN', 'LI', 'Ito'])
    return '{} {}'.format(s, rng.choice(['A', 'B.', 'J', 'AFJ', 'K L', 'T.S.', 'J.R.R.T.']))


def cit(rng, complete=0.85, journals=None, years=(1950, 2010)):
    r = rng.random()
    a = citAuthor(rng) if rng.random() < 0.93 else rng.choice(['[Anonymous]', '[Anonymous]', '[ANONYMOUS]', '[Anonymous] B'] if years == (1950, 2010) else ['[Anonymous]'])
    y = rng.randint(*years) if rng.random() < 0.985 else 0
    j = rng.choice(journals or (JKNOWN + JUNKNOWN))
    if r < complete:
        if rng.random() < 0.01:
            y = rng.choice([-44, 33, 987, 12007])
        v = str(rng.randint(1, 400)) if rng.random() < 0.7 else None
        p = str(rng.randint(1, 4000)) if rng.random() < 0.7 else None
        d = '10.{}/{}'.format(rng.randint(1000, 1010), rng.choice(['abc', 'X.1-2', 'j.z;9', 'A(1)B'])) if rng.random() < 0.3 else None
        return Cit(a, y, j, v, p, d)
    k = rng.randrange(4)
    if k == 0:
        return Cit(a, y)                                   # no journal
    if k == 1:
        return Cit(None, y, j, str(rng.randint(1, 9)), str(rng.randint(1, 99)))   # no author
    if k == 2:
        return Cit(a, None, j, str(rng.randint(1, 9)))     # no year
    v, p = rng.choice([(str(rng.randint(1, 9)), str(rng.randint(1, 99))), (str(rng.randint(1, 9)), None), (None, None)])
    return Cit(a, y, j, v, p, misc=rng.choice(['ART 12', 'SUPPL S', 'in press', 'ART 3, SUPPL 2', 'x']), doi='10.{}/ab'.format(rng.randint(1000, 1010)) if rng.random() < 0.3 else None)


def citPool(rng, n, **kw):
    """n citations with pairwise different IDs."""
    seen = collections.OrderedDict()
    tries = 0
    while len(seen) < n and tries < n * 60 + 200:
        tries += 1
        c = cit(rng, **kw)
        seen.setdefault(c.id, c)
    return list(seen.values())


# ------------------------------------------------------------------ WOS records

class Wos:
    kind = 'WOS'

    def __init__(self, tags, cites=None):
        self.tags = tags                  # OrderedDict tag -> list of raw lines
        self.cites = cites or []

    @property
    def id(self):
        return self.tags['UT'][0]

    def text(self):
        out = []
        for t, vals in self.tags.items():
            for i, v in enumerate(vals):
                out.append(('{} '.format(t) if i == 0 else '   ') + v + '\n')
        return ''.join(out) + 'ER\n'

    def copy(self):
        w = Wos(collections.OrderedDict((k, list(v)) for k, v in self.tags.items()), list(self.cites))
        return w


WOS_HEADS = ['\ufeffFN Thomson Reuters Web of Science™\nVR 1.0\n', 'FN Thomson Reuters Web of Knowledge\nVR 1.0\n', '\ufeffFN Clarivate Analytics Web of Science\nVR 1.0\n', 'FN Web of Science\n\nVR 1.0\n']


def wosFile(recs, head=None, end='EF\n', sep='\n'):
    return (head if head is not None else WOS_HEADS[0]) + ''.join(r.text() + sep for r in recs) + end


def utOf(rng, used):
    while True:
        u = 'WOS:' + ''.join(rng.choice('A0123456789') for _ in range(15))
        if u not in used:
            used.add(u)
            return u


def changed(rng, r):
    """Another version of a record, with the same ID."""
    w = r.copy()
    w.tags[rng.choice(['TI', 'AB', 'SO'])] = ['another version ' + str(rng.randint(1, 9))]
    return w


class Pools:
    def __init__(self, rng, authors=8, cites=12, keywords=8, **ck):
        self.authors = authorPool(rng, authors)
        self.cites = citPool(rng, cites, **ck)
        self.keywords = uniq(words(rng, 1, 2) for _ in range(keywords))
        self.used = set()


def wos(rng, pools, year=(1990, 2015), citeN=(0, 7), authN=(0, 5), dupes=0.1, missing=0.15, variants=0.3, full=False, j9=None, keepJ9=True):
    t = collections.OrderedDict()
    have = lambda p=None: rng.random() >= (missing if p is None else p)
    t['PT'] = ['J' if rng.random() < 0.8 else rng.choice('BSP')]
    n = rng.randint(*authN)
    auths = [rng.choice(pools.authors) for _ in range(n)]
    if rng.random() >= dupes:
        auths = list(collections.OrderedDict.fromkeys(auths))
    if auths:
        t['AU'] = [a.short for a in auths]
        if have(0.07):
            t['AF'] = [a.full for a in auths]
    if have():
        t['TI'] = [words(rng, 1, 5) for _ in range(rng.randint(1, 3))]
    if have():
        t['SO'] = [rng.choice(['Journal of Chemical Physics', 'Nature', 'Social Networks', 'Scientometrics', 'History of Glass'])]
    if have():
        t['LA'] = ['English']
    if have():
        t['DT'] = [rng.choice(['Article', 'Review', 'Letter'])]
    if pools.keywords and have(0.25):
        ks = [rng.choice(pools.keywords) for _ in range(rng.randint(1, 4))]
        if rng.random() >= dupes:
            ks = uniq(ks)
        t['DE'] = ['; '.join(ks)] if rng.random() < 0.6 else splitLines(rng, '; '.join(ks))
    if pools.keywords and have(0.3):
        ks = uniq(rng.choice(pools.keywords).upper() for _ in range(rng.randint(1, 4)))
        t['ID'] = ['; '.join(ks)]
    if have(0.25):
        t['AB'] = [words(rng, 3, 12) + '.' for _ in range(rng.randint(1, 2))]
    if have(0.3):
        t['C1'] = [rng.choice(['[{}] '.format('; '.join(a.full for a in auths[:2])) if auths and rng.random() < 0.7 else '']) + rng.choice(['Univ {}, Dept {}, Canada.'] * 5 + ['Univ [{}] Campus, {}, X.']).format(words(rng, 1, 1), words(rng, 1, 1))
                   for _ in range(rng.randint(1, 3))]
    cites = []
    if pools.cites:
        for _ in range(rng.randint(*citeN)):
            c = rng.choice(pools.cites)
            cites.append(c.variant(rng) if rng.random() < variants else c)
        if rng.random() >= dupes:
            seen = set()
            cites = [c for c in cites if not (c.id in seen or seen.add(c.id))]
    if cites:
        t['CR'] = [c.text for c in cites]
    t['NR'] = [str(len(cites))]
    if have():
        t['TC'] = [str(rng.randint(0, 50))]
    if have():
        t['Z9'] = [str(rng.randint(0, 50))]
    if have(0.4):
        t['SN'] = ['{:04d}-{:04d}'.format(rng.randint(0, 9999), rng.randint(0, 9999))]
    if keepJ9 or have():
        t['J9'] = [j9 or rng.choice(JKNOWN + JUNKNOWN)]
    if have():
        t['PD'] = [rng.choice(['JAN', 'FEB 3', 'SPR', 'WIN', 'OCT-NOV', 'SEP 15', 'DEC 1', 'JUL 4 2001', 'AUG 1999', '2009 04 15', '1998 12 1', 'Mar'])]
    if have(0.08):
        t['PY'] = [str(rng.randint(*year))]
    if have():
        t['VL'] = [str(rng.randint(1, 300))]
    if have():
        t['IS'] = [str(rng.randint(1, 12))]
    if have():
        t['BP'] = [rng.choice(['{}'] * 9 + ['{:05d}', 'E{}', '{}A']).format(rng.randint(1, 3000))]
    if have():
        t['EP'] = [str(rng.randint(1, 3000))]
    if have(0.4):
        t['DI'] = ['10.{}/{}'.format(rng.randint(1000, 9999), rng.randint(1, 99999))]
    if have(0.3):
        t['PG'] = [str(rng.randint(1, 40))]
    if have(0.3):
        t['WC'] = ['; '.join(uniq(rng.choice(['Optics', 'Physics', 'Sociology', 'Chemistry, Physical']) for _ in range(rng.randint(1, 3))))]
    if have(0.3):
        t['SC'] = ['; '.join(uniq(rng.choice(['Optics', 'Physics', 'Sociology', 'Chemistry']) for _ in range(rng.randint(1, 3))))]
    if full:
        for tag, f in (('FU', lambda: ['NSERC [12]; NIH [R01 X]']), ('FX', lambda: [words(rng, 2, 6), words(rng, 2, 6)]), ('EM', lambda: ['a@b.c; d@e.f']),
                       ('OI', lambda: ['A, B/0000-1; C, D/0000-2']), ('RI', lambda: ['A, B/X-1']), ('BN', lambda: ['978-1; 978-2']), ('SP', lambda: ['IEEE, ACM', 'NSF']),
                       ('PU', lambda: ['Elsevier', 'Science']), ('PI', lambda: ['New York']), ('PA', lambda: ['1 Main St', 'NY']), ('JI', lambda: ['J. Chem. Phys.']),
                       ('SE', lambda: [words(rng, 1, 3), words(rng, 1, 3)]), ('CT', lambda: [words(rng, 1, 3)]), ('CY', lambda: ['JUN 1-4, 2001']), ('CL', lambda: ['Paris', 'FRANCE']),
                       ('HO', lambda: ['Univ X']), ('RP', lambda: ['Smith, J (reprint author), Univ X.']), ('ED', lambda: ['Fox, A', 'Li, B']), ('BE', lambda: ['Fox, A']),
                       ('CA', lambda: ['The Group']), ('GP', lambda: ['IEEE']), ('SU', lambda: ['1']), ('SI', lambda: ['SI']), ('MA', lambda: ['M1']), ('AR', lambda: ['042']),
                       ('D2', lambda: ['10.1/2']), ('GA', lambda: ['AB12C']), ('PM', lambda: [str(rng.randint(1, 10**8))]), ('EI', lambda: ['1234-5678']), ('PN', lambda: ['2']),
                       ('BS', lambda: [words(rng, 1, 2)]), ('BA', lambda: ['X, Y']), ('BF', lambda: ['X, Yan']), ('U1', lambda: ['3']), ('Z8', lambda: ['1', '2']), ('OA', lambda: ['gold', 'green'])):
            if rng.random() < 0.4:
                t[tag] = f()
    t['UT'] = [utOf(rng, pools.used)]
    return Wos(t, cites)


def splitLines(rng, s):
    """Fold a value over several lines at single spaces, as WOS files do."""
    ws = s.split(' ')
    out = [[]]
    for w in ws:
        if out[-1] and rng.random() < 0.35:
            out.append([])
        out[-1].append(w)
    return [' '.join(o) for o in out]


def hostileWos(rng, used):
    """A record whose every value may hold anything a WOS file can hold."""
    t = collections.OrderedDict()
    tags = ['PT', 'AU', 'AF', 'TI', 'SO', 'AB', 'DE', 'ID', 'C1', 'CR', 'J9', 'PY', 'VL', 'XX', 'Z1', 'U2', 'a9', '1A', 'P2', 'SN', 'FX']
    rng.shuffle(tags)
    for tag in tags[:rng.randint(1, len(tags))]:
        vals = []
        for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
            r = rng.random()
            if r < 0.05:
                v = ''
            elif r < 0.12:
                v = rng.choice(HOSTILE)
            else:
                v = words(rng, 1, 6, hostile=0.4)
                if rng.random() < 0.1:
                    v = ' ' * rng.randint(1, 3) + v
                if rng.random() < 0.1:
                    v = v + ' ' * rng.randint(1, 3)
            vals.append(v)
        t[tag] = vals
    if 'J9' in t:
        t['J9'] = [t['J9'][0]]
    t['UT'] = [utOf(rng, used)]
    items = list(t.items())
    rng.shuffle(items)
    return Wos(collections.OrderedDict(items))


def writeRC(ctx, recs, name='recs.txt', text=None):
    """Write abstract WOS records to a file and read them with the package."""
    import metaknowledge as mk
    p = ctx.write(ctx.path(name), text if text is not None else wosFile(recs))
    return mk.RecordCollection(p)


# ------------------------------------------------------------------ Medline records

MED_TAGS_LIST = ['OT', 'MH', 'LA', 'PT', 'PHST', 'AID', 'RN', 'FAU', 'CN', 'SI', 'IS']
MED_OTHER = ['CI', 'IRAD', 'BTI', 'CTI', 'CRDT', 'DCOM', 'DA', 'LR', 'DEP', 'EN', 'ED', 'FED', 'EDAT', 'GS', 'GN', 'IR', 'FIR', 'ISBN', 'IP', 'LID', 'MID', 'MHDA', 'JID', 'RF', 'OAB', 'OABL', 'OCI', 'OID', 'OTO', 'PS',
             'FPS', 'PL', 'PST', 'PUBM', 'PMC', 'PMCR', 'NM', 'SO', 'SFM', 'STAT', 'SB', 'TT', 'VTI', 'CIN', 'EIN', 'EFR', 'CRI', 'CRF', 'DDIN', 'DRIN', 'PRIN', 'PROF', 'RPI', 'RPF', 'RIN', 'ROF', 'UIN', 'UOF', 'SPIN', 'ORI']
MED_SINGLE = ['TI', 'AB', 'TA', 'JT', 'DP', 'VI', 'PG', 'OTO']


class Med:
    kind = 'Medline'

    def __init__(self, items):
        self.items = items     # the lines in order: (tag, value); values may hold '\n'

    @property
    def tags(self):
        """What the record means: tag -> list of values, author fields bound to the author before them."""
        d = collections.OrderedDict()
        author = None
        for t, v in self.items:
            if t == 'AU':
                author = v
            if t in ('AD', 'AUID'):
                v = '{} : {}'.format(author, v)
            d.setdefault(t, []).append(v)
        return d

    @property
    def id(self):
        return 'PMID:' + dict(self.items[:1])['PMID']

    def text(self):
        return ''.join('{:<4}- {}\n'.format(t, v.replace('\n', '\n      ')) for t, v in self.items)


def medFile(recs, head='\n'):
    return head + '\n'.join(r.text() for r in recs) + '\n'


def med(rng, used, hostile=0.2, authors=None, noDupAuthors=True, fixedTags=False):
    W = lambda a, b: words(rng, a, b, hostile=hostile, latin=True).strip() or 'x'
    while True:
        pmid = str(rng.randint(1, 10 ** 8))
        if pmid not in used:
            used.add(pmid)
            break
    items = [('PMID', pmid)]
    items.append(('OWN', 'NLM'))
    if rng.random() < 0.1:
        items.append(('AD', W(1, 4)))          # an affiliation nobody owns
    if rng.random() < 0.9:
        items.append(('DP', rng.choice(['{} {}'.format(rng.randint(1990, 2015), m) for m in ('Jan', 'Feb 3', 'Oct-Nov')] + [str(rng.randint(1990, 2015))])))
    if rng.random() < 0.9:
        v = W(2, 8)
        if rng.random() < 0.4:
            v += '\n' + W(1, 5)
        items.append(('TI', v))
    if rng.random() < 0.7:
        items.append(('PG', rng.choice(['{}-{}'.format(rng.randint(1, 900), rng.randint(1, 99)), '{}'.format(rng.randint(1, 900)), 'suppl 3-4', '12; discussion 13'])))
    if rng.random() < 0.7:
        items.append(('VI', rng.choice(['12', '7 Suppl 1', '103'])))
    if rng.random() < 0.5:
        v = W(3, 12)
        for _ in range(rng.randint(0, 3)):
            v += '\n' + (W(1, 8) if rng.random() < 0.9 else '')
        items.append(('AB', v))
    auths = []
    for _ in range(rng.randint(0, 4)):
        a = rng.choice(authors) if authors else Author(rng)
        short = a.short.replace(',', '')
        if noDupAuthors and short in auths:
            continue
        auths.append(short)
        items.append(('FAU', a.full))
        items.append(('AU', short))
        if rng.random() < 0.3:
            items.append(('AUID', 'ORCID: {}'.format(rng.randint(1000, 9999))))
        if rng.random() < 0.5:
            v = W(1, 5)
            if rng.random() < 0.3:
                v += '\n' + W(1, 3)
            if rng.random() < 0.2:
                v = rng.choice([';', v + ';', v + '; ' + W(1, 3), ';' + v])
            items.append(('AD', v))
    for t in MED_TAGS_LIST:
        if t == 'FAU':
            continue
        if rng.random() < 0.35:
            for _ in range(rng.choice([1, 1, 2, 3])):
                v = W(1, 3)
                if t == 'AID' and rng.random() < 0.6:
                    v = '10.{}/x{} [doi]'.format(rng.randint(1000, 9999), rng.randint(1, 999))
                items.append((t, v))
    if rng.random() < 0.8:
        items.append(('TA', rng.choice(['Nature', 'Cell', 'Hist Glass', 'Ann Phys'])))
    if rng.random() < 0.8:
        items.append(('JT', rng.choice(['Nature', 'Cell (Cambridge)', 'History of glass'])))
    if rng.random() < 0.4:
        items.append(('GR', 'R01 {}/HD/NICHD NIH HHS/United States'.format(rng.randint(1, 9999))))
        for _ in range(rng.choice([0, 0, 1, 2])):
            items.append(('GR', rng.choice(['{0}/Wellcome Trust/United Kingdom', 'Z99 {0}/Intramural NIH HHS/United States', 'HL/NHLBI NIH HHS/United States', 'Canadian Institutes of Health {0}/Canada', 'Grant {0}',
                                            'P/{0}/ABC/Agency/Austria', 'A/B/{0}/HL/NCI/United States', 'R01/{0}/NIH/United States', 'MRC_/G{0}/Medical Research Council/United Kingdom', '{0}/HL/NIH/X', '{0}/A/', '{0}//7/HL/NIH/X', '{0}/5/HL//NIH/X', '']).format(rng.randint(1, 9999))))
        if rng.random() < 0.4:
            # one that differs in one part, or in none
            parts = items[-1][1].split('/')
            parts[rng.randrange(len(parts))] = rng.choice(['HD', 'Q1', 'Austria', '77', '', parts[0]])
            items.append(('GR', '/'.join(parts)))
    if rng.random() < 0.3:
        for t in rng.sample(MED_OTHER, rng.choice([1, 2, 5, 20])):
            for _ in range(1 if t == 'OTO' else rng.choice([1, 1, 2, 3])):
                items.append((t, W(1, 3)))
    if rng.random() < 0.3:
        items.append(('XYZ', W(1, 3)))
    return Med(items)


# ------------------------------------------------------------------ Scopus records

SCOPUS_HEADER = ['Authors', 'Title', 'Year', 'Source title', 'Volume', 'Issue', 'Art. No.', 'Page start', 'Page end', 'Page count', 'Cited by', 'DOI', 'Link',
                 'Affiliations', 'Authors with affiliations', 'Abstract', 'Author Keywords', 'Index Keywords', 'Molecular Sequence Numbers', 'Chemicals/CAS',
                 'Tradenames', 'Manufacturers', 'Funding Details', 'Funding Text', 'References', 'Correspondence Address', 'Editors', 'Sponsors', 'Publisher',
                 'Conference name', 'Conference date', 'Conference location', 'Conference code', 'ISSN', 'ISBN', 'CODEN', 'PubMed ID',
                 'Language of Original Document', 'Abbreviated Source Title', 'Document Type', 'Source', 'EID']


class Sco:
    kind = 'Scopus'

    def __init__(self, tags):
        self.tags = tags

    @property
    def id(self):
        return 'EID:' + self.tags['EID']

    def text(self, header=SCOPUS_HEADER, quoteAll=False, emptyQuotes=False):
        out = []
        for k in header:
            v = self.tags.get(k)
            if v is None:
                out.append('""' if emptyQuotes else '')
            elif quoteAll or ',' in v or '"' in v:
                out.append('"{}"'.format(v))
            else:
                out.append(v)
        return ','.join(out) + '\n'


def scoFile(recs, header=SCOPUS_HEADER, **kw):
    return '\ufeff' + ','.join(header) + '\n' + ''.join(r.text(header, **kw) for r in recs)


def scoRef(rng):
    """A journal reference Scopus style and its ID."""
    return scoRefParts(rng)[:2]


def scoRefParts(rng):
    """The same with its other parts"""
    a = '{}, {}.'.format(rng.choice(['Smith', 'Jones', 'Garfield', 'Li-Wu', 'Price', 'Van Raan', 'Muller']), rng.choice(['A', 'B.C', 'D', 'A.-B']))
    y = rng.randint(1950, 2010) if rng.random() < 0.97 else rng.choice([44, 987, 12007])
    j = rng.choice(['Nature', 'Cell', 'Hist Glass', 'Ann Phys', 'Soc Networks'])
    extra = rng.choice(['', 'Fox, Q., ', 'Fox, Q., Ito, R., '])
    title = words(rng, 1, 4).title().replace('(', '').replace(',', '')
    v = rng.choice([None, '12', '7', 'B-2'])
    i = rng.choice([None, '3', '1-2', '']) if v else None
    p = rng.choice([None, '4-9', '3', 'E12'])
    misc = rng.choice(['', '', '', ', in press!', '. 10.1/x'])
    tail = (', ' + v if v else '') + (' ({})'.format(i) if i is not None else '') + (', {}. {}'.format(rng.choice(['p', 'pp']), p) if p else '') + misc
    parts = {'V': v, 'issue': i, 'P': p, 'misc': misc.upper(), 'extraAuthors': extra.upper() or None, 'name': title.upper() + ' '}
    if misc.startswith('.'):
        # what follows the name of the journal directly is part of it
        if not v and not p:
            j, parts['misc'] = j + misc, ''
    if not v and not p and misc == ', in press!':
        parts['V'], parts['misc'] = 'IN', ' PRESS!'
    return '{}, {}{} ({}) {}{}'.format(a, extra, title, y, j if not (misc.startswith('.') and not v and not p) else j[:-len(misc)], tail), '{}, {}, {}'.format(a.upper(), y, j.upper()), parts


class SCit:
    """A Scopus reference: its text and what it must mean."""
    DOI = None

    def __init__(self, text, id, parts):
        self.text, self.id, self.parts = text, id or text, parts
        if parts is None:
            # a reference that cannot be read has none of the parts
            self.author = self.year = self.journal = self.V = self.P = self.issue = self.misc = self.extraAuthors = None
            self.bad = self.anonymous = True
            return
        a, y, self.journal = id.rsplit(', ', 2)
        self.author, self.year = a, int(y)
        self.V, self.P, self.issue, self.misc, self.extraAuthors = (parts[k] for k in ('V', 'P', 'issue', 'misc', 'extraAuthors'))
        self.bad = self.anonymous = False

    def variant(self, rng):
        """Another reference to the same thing."""
        if self.bad:
            return self
        title, v, p = words(rng, 1, 4), rng.choice([None, '12', '40']), rng.choice([None, '5', '5-9'])
        text = '{}, {} ({}) {}{}{}'.format(self.author.title() if rng.random() < 0.5 else self.author, title, self.year, self.journal.title() if rng.random() < 0.5 else self.journal,
                                           ', ' + v if v else '', ', pp. ' + p if p else '')
        return SCit(text, self.id, {'V': v, 'P': p, 'issue': None, 'misc': '', 'extraAuthors': None})


def scoUnread(rng):
    return SCit(rng.choice(['{} lecture notes', 'Report of the {}', 'http://{}.org/a', '{}, a book']).format(rng.choice(WORDS)), None, None)


def sco(rng, used, hostile=0.15, refs=None, quotes=True):
    W = lambda a, b: words(rng, a, b, hostile=hostile).replace('"', '').replace('VR 1.0', '').strip() or 'x'
    t = {}
    t['Authors'] = ', '.join('{} {}.'.format(rng.choice(['Smith', 'Jones', 'Li', 'Müller']), rng.choice('ABCD')) for _ in range(rng.randint(1, 4)))
    t['Title'] = W(2, 7)
    t['Year'] = str(rng.randint(1990, 2015))
    opt = {'Source title': lambda: rng.choice(['Nature', 'Cell, Tissue', 'Hist Glass']), 'Volume': lambda: str(rng.randint(1, 99)), 'Issue': lambda: '3', 'Page start': lambda: str(rng.randint(1, 999)),
           'Page end': lambda: '99', 'Page count': lambda: str(rng.randint(1, 20)), 'Cited by': lambda: str(rng.randint(0, 20)), 'DOI': lambda: '10.1/{}'.format(rng.randint(1, 9999)),
           'Affiliations': lambda: W(1, 4), 'Authors with affiliations': lambda: 'Smith, A., Univ X; Jones, B., Univ Y', 'Abstract': lambda: rng.choice(['', '', '', ',', '$', '|', ', ', 'the "x" of ']) + W(3, 12) + ', ' + W(1, 5),
           'Author Keywords': lambda: '; '.join(words(rng, 1, 2) for _ in range(rng.randint(1, 3))), 'Index Keywords': lambda: '; '.join(words(rng, 1, 2) for _ in range(rng.randint(1, 3))),
           'Funding Details': lambda: '; '.join(rng.choice(['R01, NIH', '12, NSF, National Science Foundation', 'NIH', 'a, b, NSERC, Canada', 'R01, NIH', '12, NSERC, National Science Foundation', '13, NSF, National Science Foundation', '12, NSF, NIH', 'R02, NIH']) for _ in range(rng.choice([1, 2, 2, 4]))), 'References': lambda: '; '.join(scoRef(rng)[0] for _ in range(rng.randint(1, 4))), 'Sponsors': lambda: 'A;B',
           'Abbreviated Source Title': lambda: 'Nat.', 'Document Type': lambda: 'Article', 'Source': lambda: 'Scopus', 'ISSN': lambda: '12345678', 'Link': lambda: 'http://x/?a=1&b=2',
           'Language of Original Document': lambda: 'English; French', 'Publisher': lambda: W(1, 3), 'ISBN': lambda: '1; 2', 'Conference code': lambda: str(rng.randint(1, 999))}
    for k, f in opt.items():
        if rng.random() < 0.6:
            t[k] = f()
    if hostile and quotes and rng.random() < 0.3:
        # doubled quotes are the format's escaped quotes, anywhere and next to commas
        for k in rng.sample(['Title', 'Abstract', 'Affiliations', 'Publisher', 'Funding Text', 'Sponsors'], rng.randint(1, 3)):
            v = ''.join(rng.choice(['""', '""', 'a', 'so on', ',', ' ', ', ', ';']) for _ in range(rng.randint(1, 8)))
            t[k] = v if v.strip() else 'x'
    while True:
        e = '2-s2.0-{}'.format(rng.randint(1, 10 ** 9))
        if e not in used:
            used.add(e)
            break
    t['EID'] = e
    return Sco({k: t[k] for k in SCOPUS_HEADER if k in t})


# ------------------------------------------------------------------ ProQuest records

BAR = '_' * 60


class Pro:
    kind = 'ProQuest'

    def __init__(self, tags):
        self.tags = tags          # OrderedDict key -> list of lines; 'Name', 'Author' and 'url' come first

    @property
    def id(self):
        return 'PROQUEST:' + self.tags['ProQuest document ID'][0]

    def text(self):
        out = []
        for k, vals in self.tags.items():
            if k in ('Name', 'url'):
                out += [vals[0], '']
            else:
                out += ['{}: {}'.format(k, vals[0]), '']
                for v in vals[1:]:
                    out += [v, '']
        out += [BAR]
        return '\n'.join(out) + '\n'


def proFile(recs, bib=True):
    out = [BAR, '', 'Report Information from ProQuest', 'December 08 2015 21:33', BAR, '', '', '', '', BAR, '', 'Table of contents']
    for i, r in enumerate(recs, 1):
        out += ['', '{}. {}'.format(i, r.tags['Title'][0])]
    out += ['', 'Bibliography', '', BAR, '']
    s = '\n'.join(out) + '\n'
    for i, r in enumerate(recs, 1):
        s += 'Document {} of {}\n\n'.format(i, len(recs)) + r.text() + '\n'
    if bib:
        s += 'Bibliography\n\nCitation style: BibTeX\n\n@misc{\nauthor={X,Y}, year={2014},\n}\n' + BAR + '\n\nContact us\n'
    return s


def pro(rng, used, hostile=0.15):
    W = lambda a, b: words(rng, a, b, hostile=hostile).replace(':', '').replace('VR 1.0', '').strip() or 'x'
    while True:
        n = str(rng.randint(10 ** 6, 10 ** 9))
        if rng.random() < 0.1:
            n = '00' + n
        if n not in used:
            used.add(n)
            break
    t = collections.OrderedDict()
    title = W(2, 8)
    t['Name'] = [title]
    t['Author'] = [Author(rng).full]
    t['url'] = ['http://search.proquest.com/docview/{}?accountid=1'.format(n)]
    if rng.random() < 0.8:
        t['Abstract'] = [W(3, 12) + '. ' + W(1, 4) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.3:
            t['Abstract'][0] += ': ' + W(1, 4)
        if rng.random() < 0.2:
            t['Abstract'][1:] = ['  ' + x for x in t['Abstract'][1:]]
        if rng.random() < 0.1 and len(t['Abstract']) > 1:
            t['Abstract'].append(rng.choice(t['Abstract'][1:]))     # a line that is there twice
    if rng.random() < 0.6:
        t['Links'] = ['http://sfx/x?url_ver=Z39.88&genre=a'] + ([rng.choice(['http://sfx/y?b:c', 'https://sfx/y?b:c', 'https://z: a'])] if rng.random() < 0.5 else [])
    opts = {'Advisor': lambda: 'Lange, Marc', 'Classification': lambda: '; '.join('{:04d}: {}'.format(rng.randint(1, 999), words(rng, 1, 2)) for _ in range(rng.randint(1, 3))),
            'Committee member': lambda: 'Kotzen, Matt, Roberts, John', 'Copyright': lambda: 'Copyright ProQuest 2014', 'Degree': lambda: 'M.A.', 'Department': lambda: W(1, 2),
            'ISBN': lambda: '9781303940095', 'Identifier / keyword': lambda: ', '.join(words(rng, 1, 2) for _ in range(rng.randint(1, 4))), 'Language': lambda: 'English',
            'Number of pages': lambda: str(rng.randint(1, 400)), 'Publication year': lambda: '2014', 'Subject': lambda: '; '.join(words(rng, 1, 2) for _ in range(rng.randint(1, 3))),
            'Source': lambda: 'MAI 53/01(E), Feb 2015'}
    for k, f in opts.items():
        if rng.random() < 0.6:
            t[k] = [f()]
    if rng.random() < 0.9:
        t['Degree date'] = [str(rng.randint(1960, 2015))]
    t['ProQuest document ID'] = [n]
    t['Title'] = [title]
    t['University/institution'] = [W(1, 4)]
    return Pro(t)
