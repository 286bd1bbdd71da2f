"""Directories of record files, as described things."""
import os
from . import gen
from .ref import rawDict

EXT = {'wos': ['.isi', '.txt'], 'med': ['.medline', '.txt'], 'sco': ['.csv', '.txt'], 'pro': ['.txt', '.pq']}


class Maker:
    def __init__(self, rng):
        self.rng = rng
        self.pools = gen.Pools(rng, authors=5, cites=4, keywords=4)
        self.used = set()

    def file(self, kind=None, n=None, damaged=None, old=None):
        """(kind, bytes, ids, damaged); `old`: records to reuse, so that files share IDs."""
        rng = self.rng
        kind = kind or rng.choice(['wos', 'wos', 'wos', 'med', 'sco', 'pro'])
        n = rng.randint(1, 3) if n is None else n
        if damaged is None:
            damaged = rng.random() < 0.2
        if damaged and kind in ('wos', 'sco') and rng.random() < 0.25:
            n = 0       # nothing of it can be read
        if kind == 'wos':
            recs = [gen.wos(rng, self.pools) for _ in range(n)] + [r for r in (old or []) if r.kind == 'WOS']
            data = gen.wosFile(recs, rng.choice(gen.WOS_HEADS), end='' if damaged else 'EF\n').encode('utf-8')
        elif kind == 'med':
            recs = [gen.med(rng, self.used, hostile=0.1) for _ in range(n)]
            data = gen.medFile(recs).encode('latin-1')
            if damaged:
                data += b'nonsense here\n'
        elif kind == 'sco':
            recs = [gen.sco(rng, self.used) for _ in range(n)]
            data = gen.scoFile(recs).encode('utf-8')
            if damaged:
                data += b'1,2,3\n'
        else:
            recs = [gen.pro(rng, self.used) for _ in range(n)]
            titles = set()
            recs = [r for r in recs if not (r.tags['Title'][0] in titles or titles.add(r.tags['Title'][0]))]
            text = gen.proFile(recs)
            if damaged:
                text = text[:text.index('Bibliography\n\nCitation')]
            data = text.encode('utf-8')
        return kind, data, recs, damaged


def snapshot(RC):
    """Everything a user can see of a collection."""
    recs = {}
    for R in RC:
        key = (type(R).__name__, R.id) if not R.bad else (type(R).__name__, 'bad', str(R.error))
        recs[key] = (rawDict(R), R.bad, os.path.basename(R.sourceFile), R.sourceLine)
    return {'records': recs, 'n': len(RC), 'name': RC.name, 'bad': RC.bad, 'errors': {k: str(v) for k, v in RC.errors.items()}}
