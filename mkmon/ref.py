"""Reference meaning of records, written from the documentation; nothing here calls the package."""
from .gen import MISSING, Cit, SCit

WOS_NAMES = {
    'PT': 'pubType', 'AF': 'authorsFull', 'GP': 'group', 'BE': 'editedBy', 'AU': 'authorsShort', 'BA': 'bookAuthor', 'BF': 'bookAuthorFull', 'CA': 'groupName',
    'ED': 'editors', 'TI': 'title', 'SO': 'journal', 'SE': 'seriesTitle', 'BS': 'seriesSubtitle', 'LA': 'language', 'DT': 'docType', 'CT': 'confTitle', 'CY': 'confDate',
    'HO': 'confHost', 'CL': 'confLocation', 'SP': 'confSponsors', 'DE': 'authKeywords', 'ID': 'keywords', 'AB': 'abstract', 'C1': 'authAddress', 'RP': 'reprintAddress',
    'EM': 'email', 'RI': 'ResearcherIDnumber', 'OI': 'orcID', 'FU': 'funding', 'FX': 'fundingText', 'CR': 'citations', 'NR': 'citedRefsCount', 'TC': 'wosTimesCited',
    'Z9': 'totalTimesCited', 'PU': 'publisher', 'PI': 'publisherCity', 'PA': 'publisherAddress', 'SC': 'subjectCategory', 'SN': 'ISSN', 'EI': 'eISSN', 'BN': 'ISBN',
    'J9': 'j9', 'JI': 'isoAbbreviation', 'PD': 'month', 'PY': 'year', 'VL': 'volume', 'IS': 'issue', 'PN': 'partNumber', 'SU': 'supplement', 'SI': 'specialIssue',
    'MA': 'meetingAbstract', 'BP': 'beginningPage', 'EP': 'endingPage', 'AR': 'articleNumber', 'PG': 'pageCount', 'WC': 'subjects', 'DI': 'DOI', 'D2': 'bookDOI',
    'GA': 'documentDeliveryNumber', 'UT': 'wosString', 'PM': 'pubMedID'}
WOS_TAGS = {v: k for k, v in WOS_NAMES.items()}
MONTHS = {'JAN': 1, 'FEB': 2, 'MAR': 3, 'APR': 4, 'MAY': 5, 'JUN': 6, 'JUL': 7, 'AUG': 8, 'SEP': 9, 'OCT': 10, 'NOV': 11, 'DEC': 12, 'SPR': 3, 'SUM': 6, 'FAL': 9, 'WIN': 12}

_LIST = set('AF BE AU BA BF ED'.split())
_SPLIT = set('FU SC EM OI BN RI WC'.split())
_JOIN = set('TI SE BS CT HO CL FX PA SU'.split())
_UPJOIN = set('SO PI PU JI'.split())
_INT = set('NR TC Z9 PG'.split())
_STRIP = set('VL BP EP'.split())
_FIRST = set('PT GP CA DT CY J9 SN AR IS EI DI UT MA D2 RP PN SI PM GA'.split())


def wosTyped(tag, v, cites=None):
    if tag in _LIST or tag not in WOS_NAMES:
        return list(v)
    if tag in _SPLIT:
        return ' '.join(v).split('; ')
    if tag in _JOIN:
        return ' '.join(v)
    if tag in _UPJOIN:
        return ' '.join(v).upper()
    if tag in _INT:
        return int(v[0])
    if tag in _STRIP:
        return v[0].strip()
    if tag in _FIRST:
        return v[0]
    if tag == 'LA':
        return ', '.join(v)
    if tag == 'SP':
        return ', '.join(v).split(', ')
    if tag == 'DE':
        return ' '.join(v).lower().split('; ')
    if tag == 'ID':
        return ' '.join(v).upper().split('; ')
    if tag == 'AB':
        return '\n'.join(v)
    if tag == 'C1':
        return [a.split('] ', 1)[1] if a[:1] == '[' and '] ' in a else a for a in v]
    if tag == 'PY':
        return int(v[0])
    if tag == 'PD':
        p = v[0].split(' ')
        return int(p[1]) if p[0].isdigit() else MONTHS[p[0].split('-')[0].upper()]
    if tag == 'CR':
        return cites if cites is not None else list(v)
    raise KeyError(tag)


def wosGet(w, key, default=None):
    """Value of a tag or long name in an abstract WOS record; citations as a list of Cit."""
    tag = key if key in w.tags else WOS_TAGS.get(key, key)
    if tag in w.tags:
        return wosTyped(tag, w.tags[tag], w.cites if tag == 'CR' else None)
    if key == 'id':
        return w.id
    if key == 'grants':
        return []
    return default


def asList(v):
    if v is None:
        return []
    return v if isinstance(v, list) else [v]


def strVal(v):
    return v.text if isinstance(v, Cit) else str(v)


def scoSelf(t, author):
    """The citation of a Scopus record with authors, year, title and the plain title of its source"""
    v, p = t.get('Volume'), t.get('Page start')
    text = '{}, {} ({}) {}, '.format(author, t['Title'].replace('(', '').replace(')', ''), t['Year'], t['Source title']) + (v + ', ' if v else '') + ('PP. ' + p if p else '')
    return SCit(text, '{}, {}, {}'.format(author.upper(), t['Year'], t['Source title'].upper()), {'V': v, 'P': p, 'issue': None, 'misc': '' if p else ', ', 'extraAuthors': None})


def selfCite(w):
    """The citation other records use for this one."""
    if w.kind == 'Scopus':
        return scoSelf(w.tags, w.tags['Authors'].split(', ')[0])
    au = wosGet(w, 'AU')
    a = au[0].replace(',', '') if au else None
    y = wosGet(w, 'PY') or None
    j = wosGet(w, 'J9') or wosGet(w, 'TI') or None
    return Cit(a, y, j, wosGet(w, 'VL') or None, wosGet(w, 'BP') or None, wosGet(w, 'DI') or None)


def selfCites(w):
    """One per author."""
    if w.kind == 'Scopus':
        return [scoSelf(w.tags, a) for a in w.tags['Authors'].split(', ')]
    au = wosGet(w, 'AU') or []
    y = wosGet(w, 'PY') or None
    j = wosGet(w, 'J9') or wosGet(w, 'TI') or None
    rest = (y, j, wosGet(w, 'VL') or None, wosGet(w, 'BP') or None, wosGet(w, 'DI') or None)
    return [Cit(a.replace(',', ''), *rest) for a in au] or [Cit(None, *rest)]


# ------------------------------------------------------------------ Medline

MED_FIRST = {'PG', 'VI', 'DP', 'TI', 'OTO', 'AB', 'TA', 'JT'}


def medTyped(tag, v):
    if tag == 'PMID':
        return 'PMID:' + v[0]
    if tag in MED_FIRST:
        return v[0]
    if tag == 'AD':
        d = {}
        for s in v:
            a, rest = s.split(' : ', 1)
            d[a] = [x for x in rest.replace('\n', '').split(';') if x != '']
        return d
    if tag == 'AUID':
        return dict(s.split(' : ', 1) for s in v)
    return list(v)


SCO_INT = {'Year', 'Page count', 'Cited by', 'Conference code'}
SCO_SEMI = {'Authors with affiliations', 'Author Keywords', 'Index Keywords', 'Tradenames', 'Manufacturers', 'Correspondence Address', 'ISBN', 'Language of Original Document'}


def scoTyped(tag, v):
    if tag == 'Authors':
        return v.split(', ')
    if tag in SCO_INT:
        return int(v)
    if tag in SCO_SEMI:
        return v.split('; ')
    if tag == 'Sponsors':
        return v.split(';')
    return v


# ------------------------------------------------------------------ comparing graphs

def graphOf(g):
    """A networkx graph as plain data: nodes with attributes, edges with attributes (multi: by key)."""
    nodes = {n: dict(d) for n, d in g.nodes(data=True)}
    edges = {}
    und = not g.is_directed()
    if g.is_multigraph():
        for a, b, k, d in g.edges(keys=True, data=True):
            edges[(edgeKey(a, b, und), k)] = dict(d)
    else:
        for a, b, d in g.edges(data=True):
            edges[edgeKey(a, b, und)] = dict(d)
    return nodes, edges


def edgeKey(a, b, undirected=True):
    return frozenset((a, b)) if undirected else (a, b)


def rawDict(R):
    """The raw fields of a package record, as plain data."""
    return {k: list(v) if isinstance(v, (list, tuple)) else v for k, v in R.items(raw=True)}
