"""One described record of any kind, the package's record for it and the value each of its fields must have."""
from . import gen, ref


def norm(v):
    """A field value as plain comparable data."""
    from metaknowledge.citation import Citation
    import metaknowledge as mk
    if isinstance(v, Citation):
        return ('Citation', str(v), v.ID(), v.bad)
    if isinstance(v, mk.Record):
        return ('Record', type(v).__name__, tuple(sorted((k, norm(x)) for k, x in v.items())))
    if isinstance(v, dict):
        return ('dict', tuple(sorted(((norm(k), norm(x)) for k, x in v.items()), key=repr)))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(norm(x) for x in v))
    return (type(v).__name__, v)


def cite(c):
    return ('Citation', c.text, c.id, c.bad)


def scoGrant(s):
    p = s.split(', ')
    d = {'agency': p[-1]}
    if len(p) > 1:
        d['agencyCode'] = p[-2]
    if len(p) > 2:
        d['code'] = p[-3]
    return ('Record', 'ScopusGrant', tuple(sorted((k, norm(x)) for k, x in d.items())))


def medGrant(s):
    p = s.split('/')
    if len(p) < 2:
        d = {'country': s}
    else:
        d = {'country': p[-1], 'agency': p[-2]}
        q = p[:-2]
        if len(q) == 1:
            d['code' if len(q[0]) == 2 else 'number'] = q[0]
        elif len(q) == 2:
            if len(q[1]) == 2:
                d['code'], d['number'] = q[1], q[0]
            else:
                d['number'] = '/'.join(q)
        else:
            d['number'] = '/'.join(q)
    return ('Record', 'MedlineGrant', tuple(sorted((k, norm(x)) for k, x in d.items())))


def wosExpected(w):
    out = {}
    for t, v in w.tags.items():
        if t == 'CR':
            val = ('list', tuple(cite(c) for c in w.cites))
        else:
            val = norm(ref.wosTyped(t, v))
        out[t] = val
        if t in ref.WOS_NAMES:
            out[ref.WOS_NAMES[t]] = val
    out['id'] = norm(w.id)
    if 'grants' not in out:
        out['grants'] = norm([])
    if 'AU' in w.tags and ('J9' in w.tags or 'TI' in w.tags):     # otherwise the citation text is ambiguous
        out['selfCitation'] = cite(ref.selfCite(w))
    return out


def medExpected(m):
    d = m.tags
    out = {}
    for t, v in d.items():
        if t == 'GR':
            out[t] = ('list', tuple(medGrant(s) for s in v))
        else:
            out[t] = norm(ref.medTyped(t, v))
    one = lambda t: d[t][0]
    out['id'] = norm(m.id)
    if 'DP' in d:
        p = one('DP').split(' ')
        out['year'] = norm(int(p[0]))
        if len(p) > 1:
            out['month'] = norm(ref.MONTHS[p[1].split('-')[0].upper()])
    if 'VI' in d:
        out['volume'] = norm(one('VI').split(' ')[0])
    if 'PG' in d:
        p = one('PG')
        if p.startswith('suppl '):
            p = p[6:]
        out['beginningPage'] = norm(p.split(' ')[0].split('-')[0].split(';')[0])
    for a in d.get('AID', []):
        if a.endswith(' [doi]'):
            out['DOI'] = norm(a[:-6])
            break
    for name, t in (('j9', 'TA'), ('grants', 'GR'), ('authorsShort', 'AU'), ('authorsFull', 'FAU'), ('title', 'TI'), ('journal', 'JT'), ('keywords', 'OT'), ('abstract', 'AB'),
                    ('Abstract', 'AB'), ('Affiliation', 'AD'), ('Author', 'AU'), ('FullAuthor', 'FAU'), ('DatePublication', 'DP'), ('JournalTitle', 'JT'), ('Language', 'LA'),
                    ('MeSHTerms', 'MH'), ('OtherTerm', 'OT'), ('Pagination', 'PG'), ('PublicationType', 'PT'), ('Volume', 'VI'), ('Title', 'TI'), ('GrantNumber', 'GR'),
                    ('AuthorIdentifier', 'AUID'), ('ArticleIdentifier', 'AID'), ('RegistryNumber', 'RN'), ('CorporateAuthor', 'CN'), ('PubMedUniqueIdentifier', 'PMID')):
        if t in out:
            out[name] = out[t]
    for t, name in MED_NAMES.items():
        if t in out:
            out[name] = out[t]
    ad = ref.medTyped('AD', d['AD']) if 'AD' in d else {}
    if 'AU' in d and ad.get(d['AU'][0]):
        out['address'] = norm(ad[d['AU'][0]][0])
    return out


def scoExpected(s, refs=None):
    out = {}
    for t, v in s.tags.items():
        if t == 'References':
            continue
        if t == 'Funding Details':
            out[t] = ('list', tuple(scoGrant(x) for x in v.split('; ')))
        else:
            out[t] = norm(ref.scoTyped(t, v))
    for name, t in (('year', 'Year'), ('volume', 'Volume'), ('beginningPage', 'Page start'), ('j9', 'Abbreviated Source Title'), ('authorsShort', 'Authors'), ('authorsFull', 'Authors'),
                    ('title', 'Title'), ('journal', 'Source title'), ('keywords', 'Index Keywords'), ('abstract', 'Abstract')):
        if t in out:
            out[name] = out[t]
    return out


# the names of the tags, as the National Library of Medicine gives them
MED_NAMES = {'CI': 'CopyrightInformation', 'IRAD': 'InvestigatorAffiliation', 'BTI': 'BookTitle', 'CTI': 'CollectionTitle', 'CRDT': 'CreateDate', 'DCOM': 'DateCompleted', 'DA': 'DateCreated', 'LR': 'DateLastRevised',
             'DEP': 'DateElectronicPublication', 'EN': 'Edition', 'EDAT': 'EntrezDate', 'GS': 'GeneSymbol', 'GN': 'GeneralNote', 'IR': 'Investigator', 'FIR': 'InvestigatorFull', 'ISBN': 'ISBN', 'IS': 'ISSN', 'IP': 'Issue',
             'LID': 'LocationIdentifier', 'MID': 'ManuscriptIdentifier', 'MHDA': 'MeSHDate', 'JID': 'NLMID', 'RF': 'NumberReferences', 'OCI': 'OtherCopyright', 'OID': 'OtherID', 'OTO': 'OtherTermOwner', 'OWN': 'Owner',
             'PS': 'PersonalNameSubject', 'FPS': 'FullPersonalNameSubject', 'PL': 'PlacePublication', 'PHST': 'PublicationHistoryStatus', 'PST': 'PublicationStatus', 'PUBM': 'PublishingModel', 'PMC': 'PubMedCentralIdentifier',
             'PMCR': 'PubMedCentralRelease', 'NM': 'SubstanceName', 'SI': 'SecondarySourceID', 'SO': 'Source', 'SFM': 'SpaceFlightMission', 'STAT': 'Status', 'SB': 'Subset', 'TT': 'TransliteratedTitle', 'VTI': 'VolumeTitle',
             'CIN': 'CommentIn', 'EIN': 'ErratumIn', 'EFR': 'ErratumFor', 'CRI': 'CorrectedRepublishedIn', 'CRF': 'CorrectedRepublishedFrom', 'DDIN': 'DatasetIn', 'DRIN': 'DatasetUseReportedIn', 'PRIN': 'PartialRetractionIn',
             'PROF': 'PartialRetractionOf', 'RPI': 'RepublishedIn', 'RPF': 'RepublishedFrom', 'RIN': 'RetractionIn', 'ROF': 'RetractionOf', 'UIN': 'UpdateIn', 'UOF': 'UpdateOf', 'SPIN': 'SummaryForPatients', 'ORI': 'OriginalReportIn'}

PRO_ONE = {'Author', 'Title', 'Advisor', 'Name', 'Committee member', 'Copyright', 'Degree', 'Degree date', 'Department', 'Language', 'Number of pages', 'ProQuest document ID',
           'Publication year', 'Source', 'University/institution', 'ISBN'}


def proExpected(p):
    out = {}
    for t, v in p.tags.items():
        if t == 'Subject':
            out[t] = norm(v[0].split('; '))
        elif t == 'Identifier / keyword':
            out[t] = norm(v[0].split(', '))
        elif t == 'Classification':
            out[t] = norm([tuple(x.split(': ')) for x in v[0].split('; ')])
        elif t in PRO_ONE:
            out[t] = norm(v[0])
        else:
            out[t] = norm(list(v))
    out['id'] = norm(p.id)
    out['authorsShort'] = out['authorsFull'] = norm([p.tags['Author'][0]])
    out['title'] = out['Title']
    if 'Degree date' in p.tags:
        out['year'] = norm(int(p.tags['Degree date'][0]))
    if 'Abstract' in out:
        out['abstract'] = out['Abstract']
    if 'Identifier / keyword' in out:
        out['keywords'] = out['Identifier / keyword']
    return out


WOS_TEXT = 'PT AF GP BE BA BF CA ED SE BS LA DT CT CY HO CL SP DE ID AB RP EM RI OI FU FX PU PI PA SC SN EI BN JI IS PN SU SI MA AR WC D2 GA PM SO XX Z1 U2'.split()
WOS_PADDED = ['VL', 'BP', 'EP']


def unusual(rng, w):
    """Values a WOS file may hold in place of the usual ones."""
    for t in rng.sample(WOS_TEXT, rng.choice([1, 3, 8, 20])):
        if t in w.tags or rng.random() < 0.3:
            v = [gen.words(rng, 1, 4, hostile=0.4) for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.3:
                i = rng.randrange(len(v))
                v[i] = rng.choice(['{}; {}', '{};{}', '{}; ; {}', '{};', '; {}', '{}, {}', '{},{}', '{} ', ' {}', '{}; {} ']).format(v[i], rng.choice(gen.WORDS))
            w.tags[t] = v
    for t in WOS_PADDED:
        if t in w.tags and rng.random() < 0.3:
            w.tags[t][0] = rng.choice([' {}', '{} ', ' {}  ']).format(w.tags[t][0])
    if 'J9' in w.tags and 'TI' in w.tags and rng.random() < 0.5:
        w.tags['TI'] = [gen.words(rng, 1, 4, hostile=0.4) for _ in range(rng.choice([1, 2]))]
    if 'C1' in w.tags:
        w.tags['C1'] = [v + rng.choice(['', '', '] x', ' ] y', ', [a] b']) for v in w.tags['C1']]
    # the identifier stays where it was
    w.tags.move_to_end('UT')
    return w


def unusualMed(rng, m, authors=True):
    """Values a Medline file may hold in place of the usual ones: colons, and spaces at the ends of lines."""
    items = []
    for t, v in m.items:
        if t in ('AD', 'AUID') and rng.random() < 0.4:
            v = rng.choice(['{} : {}', '{}: {}', '{} : {} : x', '{} :{}', ': {1} {0}']).format(v, gen.words(rng, 1, 2))
        elif t in ('TI', 'AB', 'AD', 'OT', 'GN', 'PS') and rng.random() < 0.4:
            v = '\n'.join(x + rng.choice(['', ' ', '  ', ' -']) for x in v.split('\n'))
        elif t == 'AU' and authors and rng.random() < 0.1:
            v += ' '
        items.append((t, v))
    m.items = items
    return m


def unusualSco(rng, s):
    """Values a Scopus file may hold in place of the usual ones."""
    W = lambda: gen.words(rng, 1, 3, hostile=0.4).replace('"', '').replace('VR 1.0', 'v')
    for t in rng.sample(['Author Keywords', 'Index Keywords', 'Sponsors', 'Tradenames', 'Manufacturers', 'Correspondence Address', 'Funding Text', 'Editors', 'Conference name', 'Chemicals/CAS', 'CODEN', 'Issue', 'Page end',
                         'Authors with affiliations', 'Language of Original Document', 'ISBN', 'Affiliations'], rng.choice([1, 3, 8])):
        v = rng.choice([' ', '']).join(W() + rng.choice(['; ', ';', '; ; ', ' ;', ', ', ',']) for _ in range(rng.randint(0, 3))) + W()
        if v.strip():
            s.tags[t] = v
    s.tags = {k: s.tags[k] for k in gen.SCOPUS_HEADER if k in s.tags}
    return s


def one(rng, ctx, kind=None):
    """(kind, described record, function making a fresh package record, expected values)"""
    import metaknowledge as mk
    kind = kind or rng.choice(['wos', 'wos', 'med', 'sco', 'pro'])
    if kind == 'wos':
        r = gen.wos(rng, gen.Pools(rng, authors=5, cites=6, keywords=5), full=True)
        if rng.random() < 0.4:
            unusual(rng, r)
        text = r.text()
        return kind, r, (lambda: mk.WOSRecord(text)), wosExpected(r)
    if kind == 'med':
        while True:
            r = gen.med(rng, set(), hostile=0.15)
            if rng.random() < 0.4:
                unusualMed(rng, r)
            d = r.tags
            if not any(s.startswith('None : ') for s in d.get('AD', [])) and all(len([s for s in d.get('AD', []) if s.split(' : ')[0] == s2.split(' : ')[0]]) == 1 for s2 in d.get('AD', [])):
                break
        text = r.text()
        return kind, r, (lambda: mk.MedlineRecord(text)), medExpected(r)
    if kind == 'sco':
        r = gen.sco(rng, set())
        if rng.random() < 0.4:
            unusualSco(rng, r)
        text = r.text()
        return kind, r, (lambda: mk.ScopusRecord(text)), scoExpected(r)
    r = gen.pro(rng, set())
    p = ctx.write(ctx.path('one.txt'), gen.proFile([r]))
    return kind, r, (lambda: [x for x in mk.RecordCollection(p)][0]), proExpected(r)
