"""Genders of authors are those listed for their first names."""
import warnings
from mkmon import gen, rc, standins

ID = 'P28'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 20000, 300000
STANDINS = True
RULE = ('Random records and collections of 0-8 Web of Science records whose authors have listed and unlisted first names in any case, initials, several first names, no first name or the name of another author of the record; '
        'genders of single records and counts and fractions of records and collections are compared with the list of names. Non-trivial: at least two kinds of gender.')
ASSUMPTIONS = ['The list of names is a small stand-in for the published one, which cannot be downloaded here.', 'An author named twice in a record is one author.', 'The first name is the first word after the comma.']
REQUIRED = ['records', 'collections', 'fractions', 'counts', 'listed', 'unlisted', 'no_first_name', 'upper_case', 'middle_name', 'repeated', 'no_authors', 'nobody', 'Male', 'Female', 'Unknown']
MAP = {k.title(): v for k, v in standins.NAMES.items()}


def author(rng, ctx):
    last = rng.choice(['Smith', 'Müller', 'van der Berg', "O'Neil", 'Li', 'Mary', 'John'])
    r = rng.random()
    if r < 0.08:
        ctx.count('no_first_name')
        return rng.choice([last, last + ' ' + 'Mary', last + ',Mary', last + ','])
    if r < 0.65:
        first = rng.choice(list(standins.NAMES))
        ctx.count('listed')
    else:
        first = rng.choice(['X', 'J. R.', 'Zzyzx', 'Marya', 'Jo', 'Joh', 'M', 'Jean-Luc', 'Ann'])
        ctx.count('unlisted')
    k = rng.random()
    if k < 0.25:
        first = first.upper()
        ctx.count('upper_case')
    elif k < 0.4:
        first = first.lower()
    if rng.random() < 0.35:
        first += ' ' + rng.choice(['A.', 'Mary', 'John', 'Peter', 'Q', ''])
        first = first.strip()
        ctx.count('middle_name')
    return last + ', ' + first


def gender(name):
    p = name.split(', ')
    if len(p) < 2:
        return 'Unknown'
    return MAP.get(p[1].split(' ')[0].title(), 'Unknown')


def tally(ds):
    out = {'Male': 0, 'Female': 0, 'Unknown': 0}
    for d in ds:
        for v in d.values():
            out[v] += 1
    return out


def fractions(c):
    t = sum(c.values())
    return {k: (v / t if t else 0) for k, v in c.items()}


def near(ctx, got, want, kind, how):
    ctx.eq(sorted(got), sorted(want), kind + '-keys')
    for k in want:
        ctx.check(abs(got[k] - want[k]) < 1e-9, kind, lambda: '{} got {} expected {}'.format(how, got, want))


def case(rng, ctx):
    import metaknowledge as mk
    warnings.simplefilter('ignore')
    recs = []
    for i in range(rng.choice([0, 1, 1, 2, 4, 8])):
        names = [author(rng, ctx) for _ in range(rng.choice([0, 1, 2, 3, 6]))]
        if names and rng.random() < 0.1:
            names.append(names[0])
            ctx.count('repeated')
        tags = ['PT J', 'UT WOS:{:015d}'.format(i)]
        if names:
            tags.insert(1, 'AF ' + '\n   '.join(names))
        else:
            ctx.count('no_authors')
        if rng.random() < 0.5:
            tags.insert(1, 'AU Nobody, Mary')
        R = mk.WOSRecord('\n'.join(tags) + '\nER\n')
        assert not R.bad
        recs.append((R, {n: gender(n) for n in names}))
    for R, d in recs:
        ctx.count('records')
        for k in range(rng.randint(1, 3)):
            how = rng.choice(['plain', 'counts', 'fractions'])
            if how == 'plain':
                ctx.eq(R.authGenders(), d, 'genders')
            elif how == 'counts':
                ctx.eq(R.authGenders(countsOnly=True), tally([d]), 'counts', str(d))
                ctx.count('counts')
            else:
                near(ctx, R.authGenders(fractionsMode=True), fractions(tally([d])), 'fractions', str(d))
                ctx.count('fractions')
    RC = mk.RecordCollection([R for R, _ in recs])
    ctx.count('collections')
    t = tally([d for _, d in recs])
    for k, v in t.items():
        ctx.count(k, v)
    ctx.count('nobody', int(not sum(t.values())))
    ctx.eq(RC.genderStats(), t, 'stats', str([d for _, d in recs]))
    near(ctx, RC.genderStats(asFractions=True), fractions(t), 'stats-fractions', str(t))
    if sum(1 for v in t.values() if v) > 1:
        ctx.sig(sorted(str(sorted(d.items())) for _, d in recs))
        ctx.sample({'genders': [d for _, d in recs][:3]})
