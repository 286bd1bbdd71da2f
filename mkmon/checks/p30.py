"""ProQuest files are read as the documents they list."""
import os
import warnings
from mkmon import gen, kinds

ID = 'P30'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 12000, 200000
RULE = ('Random ProQuest reports of 1-12 documents with titles holding colons, full stops and numbers, fields of several paragraphs, links, foreign letters and missing fields, with and without the bibliography at the end, '
        'and single documents from text, files and dictionaries; every field of every document is compared with the one described. Non-trivial: at least two documents.')
ASSUMPTIONS = ['Further paragraphs of a field hold no colons unless they are links.', 'A report always ends with its bibliography; one without it is reported as damaged and keeps its documents.']
REQUIRED = ['files', 'single', 'colon_titles', 'numbered_titles', 'paragraphs', 'links', 'no_bibliography', 'missing_fields', 'from_dict', 'many', 'same_title', 'no_id', 'unwritable']


def fancy(rng, ctx, r):
    t = r.tags['Title'][0]
    k = rng.random()
    if k < 0.25:
        t = rng.choice(['Time: {}', '{}: a study', '{}: parts: all', 'What? {}: Yes']).format(t)
        ctx.count('colon_titles')
    elif k < 0.45:
        t = rng.choice(['3. {}', '{}. 2. Part', 'No. 5. {}', '{}.', 'Vol. 1']).format(t)
        ctx.count('numbered_titles')
    elif k < 0.5:
        t = 'The same title'
        ctx.count('same_title')
    r.tags['Title'] = [t]
    r.tags['Name'] = [t]
    if 'Abstract' in r.tags and len(r.tags['Abstract']) > 1:
        ctx.count('paragraphs')
    if rng.random() < 0.3:
        r.tags['Links'] = ['http://sfx/x?url_ver=Z39.88&genre=a'] + rng.choice([['https://sfx/y?b:c'], ['http://a/b: c', 'https://d'], ['https://e']])
        r.tags.move_to_end('Title')
        ctx.count('links')
    for k in list(r.tags):
        if k not in ('Name', 'Author', 'url', 'Title', 'ProQuest document ID') and rng.random() < 0.1:
            del r.tags[k]
            ctx.count('missing_fields')
    return r


def compare(ctx, R, r, tell):
    exp = kinds.proExpected(r)
    ctx.check(not R.bad and R.error is None, 'bad', lambda: '{} {!r}'.format(tell, R.error))
    ctx.eq(R.id, r.id, 'id', tell)
    ctx.eq(list(R.keys()) if hasattr(R, 'keys') else None, list(r.tags), 'fields', tell)
    for k in r.tags:
        ctx.eq(kinds.norm(R[k]), exp[k], 'value', '{} {}'.format(tell, k))
    for k in ('year', 'title', 'abstract', 'keywords', 'authorsFull', 'authorsShort', 'id'):
        got = R.get(k)
        if k in exp:
            ctx.eq(kinds.norm(got), exp[k], 'common-value', '{} {}'.format(tell, k))
        else:
            ctx.check(got is None, 'invented', lambda: '{} {} is {!r}'.format(tell, k, got))


def case(rng, ctx):
    import metaknowledge as mk
    warnings.simplefilter('ignore')
    used = set()
    recs = [fancy(rng, ctx, gen.pro(rng, used)) for _ in range(rng.choice([1, 2, 3, 5, 12]))]
    if rng.random() < 0.3:
        r = recs[0]
        ctx.count('single')
        how = rng.choice(['text', 'file', 'dict'])
        if how == 'text':
            R = mk.ProQuestRecord(r.text())
        elif how == 'dict':
            R = mk.ProQuestRecord({k: list(v) for k, v in r.tags.items()})
            ctx.count('from_dict')
        else:
            p = ctx.path('one.txt')
            ctx.write(p, r.text().encode('utf-8'))
            with open(p, encoding='utf-8') as f:
                R = mk.ProQuestRecord(f)
        compare(ctx, R, r, how)
        if rng.random() < 0.3:
            try:
                R.writeRecord(None)
                ctx.fail('written', 'a ProQuest record was written')
            except mk.RecordsNotCompatible:
                ctx.count('unwritable')
        if rng.random() < 0.3:
            t = {k: list(v) for k, v in r.tags.items() if k != 'ProQuest document ID'}
            B = mk.ProQuestRecord(t)
            ctx.count('no_id')
            ctx.check(B.bad and B.error is not None, 'no-id-accepted', lambda: str(B))
        return
    ctx.count('files')
    ctx.count('many', int(len(recs) > 9))
    bib = rng.random() < 0.85
    p = ctx.path(rng.choice(['report.txt', 'ProQuest.testtxt', 'r']))
    ctx.write(p, gen.proFile(recs, bib=bib).encode('utf-8'))
    RC = mk.RecordCollection(p)
    ctx.eq(sorted(R.id for R in RC), sorted(r.id for r in recs), 'documents')
    if bib:
        ctx.eq((RC.bad, RC.errors), (False, {}), 'collection-bad')
    else:
        ctx.count('no_bibliography')
        ctx.check(RC.bad and list(RC.errors) == [p], 'end-missing-unreported', lambda: repr((RC.bad, RC.errors)))
    byId = {r.id: (i, r) for i, r in enumerate(recs)}
    for R in RC:
        if R.id in byId:
            i, r = byId[R.id]
            ctx.check(isinstance(R, mk.ProQuestRecord), 'type', str(type(R)))
            compare(ctx, R, r, 'document {} of {}'.format(i + 1, len(recs)))
            ctx.eq(R.sourceFile, p, 'source')
    if len(recs) > 1:
        ctx.sig(sorted(r.id for r in recs))
        ctx.sample({'documents': len(recs), 'titles': [r.tags['Title'][0] for r in recs][:3]})
