"""The directory cache is transparent: a cached read always equals a fresh one."""
import os
import sys
import pickle
import re
import warnings
from mkmon import gen, dirs, grants as gr

ID = 'P06'
LEVEL = 'fault_enumeration'
QUICK_N, THOROUGH_N = 5000, 80000
RULE = ('Histories of cached reads of a directory (record and grant collections, with and without extension and name) between which files are added, removed, renamed, swapped, rewritten with newer '
        'or older times, the cache is cut at a point, emptied, replaced by something else or aged to another version; every cached read is compared with an uncached one. '
        'Non-trivial: at least two steps and one reread.')
ASSUMPTIONS = ['A file rewritten with exactly its old modification time is not a change the cache has to see.',
               'Bytes inside an otherwise intact cache are trusted, except for the version it names.']
REQUIRED = ['cached_reads', 'cache_hits', 'cache_cuts', 'record_histories', 'grant_histories', 'step_touch', 'step_remove', 'step_rename', 'step_swap', 'step_version', 'step_replace', 'step_mutate', 'unopened']


def cacheFiles(d):
    return [f for f in os.listdir(d) if 'DirCache' in f]


def foreign(rng, data, grants):
    """A pickle of something that is no cache, or nearly one"""
    import metaknowledge as mk
    try:
        dat, C = pickle.loads(data)
        dict(dat['File dict'])
    except Exception:
        # one that was replaced already
        dat, C = {}, None
    other = (mk.RecordCollection if grants else mk.GrantCollection)(name='mine')
    ret = rng.choice([(1, 2), ('ab', 'cd'), 'xy', (None, None), ({}, C), ([], C), (dat, None), (dat, {}), (dat, 3), (dat, other), (dict(dat, **{'File dict': 3}), C), (dict(dat, **{'File dict': None}), C),
                      (dict(dat, **{'File dict': list(dat.get('File dict', ()))}), C), (C, dat), {'a': 1, 'b': 2}, [dat, dat]])
    return pickle.dumps(ret)


class Opened:
    """The names of the files opened meanwhile"""
    hooked, now = False, None

    def __enter__(self):
        if not Opened.hooked:
            Opened.hooked = True
            sys.addaudithook(Opened.hook)
        self.names = []
        Opened.now = self
        return self

    def __exit__(self, *a):
        Opened.now = None

    @staticmethod
    def hook(event, args):
        if Opened.now is not None and event == 'open' and isinstance(args[0], str):
            Opened.now.names.append(args[0])


def case(rng, ctx):
    import metaknowledge as mk
    warnings.simplefilter('ignore')
    grants = rng.random() < 0.3
    ctx.count('grant_histories' if grants else 'record_histories')
    d = ctx.newdir(rng.choice(['d', 'my dir', 'recs.isi']))
    m = dirs.Maker(rng)
    serial = [0]
    cles = [str(rng.randint(100, 999)) for _ in range(5)]
    clock = [1000000000]

    def put(name=None, older=False):
        serial[0] += 1
        if grants:
            fname, data, gs = gr.anyFile(rng, serial[0], cles=cles)
        else:
            kind, data, recs, dm = m.file(damaged=rng.random() < 0.15)
            fname = 'f{}{}'.format(serial[0], rng.choice(dirs.EXT[kind]))
        name = name or fname
        p = os.path.join(d, name)
        ctx.write(p, data)
        clock[0] += rng.choice([1, 0.25, 0.25, 30])
        os.utime(p, (clock[0], clock[0] if not older else clock[0] - rng.randint(100, 10 ** 6) - 0.5))
        return p

    def snap(C):
        if grants:
            return grantSnap(C)
        return dirs.snapshot(C)

    cls = mk.GrantCollection if grants else mk.RecordCollection
    for _ in range(rng.randint(0, 3)):
        put()
    ext = rng.choice(['', '', '', '.isi', '.txt', '.csv', '.xml'])
    name = rng.choice(['', '', 'mine'])
    steps = []
    rereads = 0
    for step in range(rng.randint(2, 6)):
        listing = sorted(f for f in os.listdir(d) if 'DirCache' not in f)
        what = rng.choice(['nothing', 'nothing', 'add', 'remove', 'touch', 'rename', 'swap', 'cut', 'cut', 'replace', 'version', 'name', 'ext', 'mutate'])
        if step == 0:
            what = 'nothing'
        steps.append(what)
        ctx.count('step_' + what)
        tampered = False
        if what == 'add':
            put()
        elif what == 'remove' and listing:
            os.remove(os.path.join(d, rng.choice(listing)))
        elif what == 'touch' and listing:
            put(rng.choice(listing), older=rng.random() < 0.5)
        elif what == 'rename' and listing:
            f = rng.choice(listing)
            os.rename(os.path.join(d, f), os.path.join(d, ('NSERC_new' if f.startswith('NSERC') else 'cihr_new' if f.startswith('cihr') else 'new') + str(serial[0]) + f))
        elif what == 'swap' and len(listing) > 1:
            a, b = rng.sample(listing, 2)
            os.rename(os.path.join(d, a), os.path.join(d, 'tmp'))
            os.rename(os.path.join(d, b), os.path.join(d, a))
            os.rename(os.path.join(d, 'tmp'), os.path.join(d, b))
        elif what in ('cut', 'replace', 'version'):
            for c in cacheFiles(d):
                p = os.path.join(d, c)
                data = ctx.read(p)
                if what == 'cut':
                    ctx.write(p, data[:rng.randint(0, max(0, len(data) - 1))])
                    ctx.count('cache_cuts')
                elif what == 'replace':
                    ctx.write(p, rng.choice([b'', b'junk\n', b'\x80\x04N.', b'\x80\x04]\x94.', b'\x80\x04}\x94h\x07.', foreign(rng, data, grants), foreign(rng, data, grants), foreign(rng, data, grants), data + b'tail', data[::-1]]))
                else:
                    v = mk.__version__.encode()
                    if v in data:
                        # another version wrote this, and what it holds is not what a reread gives
                        data = data.replace(v, bytes([v[0] ^ 1]) + v[1:]).replace(b'Univ', b'UNIV').replace(b'English', b'ENGLISH')
                        ctx.write(p, data)
        elif what == 'name':
            name = rng.choice(['', 'mine', 'other'])
        elif what == 'ext':
            ext = rng.choice(['', '.isi', '.txt', '.csv'])
        fresh = err = None
        target = rng.choice([d, d + os.sep])
        try:
            fresh = snap(cls(target, name=name, extension=ext))
        except mk.BadInputFile as e:
            err = type(e)
        before = {c: os.stat(os.path.join(d, c)).st_mtime_ns for c in cacheFiles(d)}
        try:
            C = cls(target, name=name, extension=ext, cached=True)
        except mk.BadInputFile as e:
            ctx.eq(type(e), err, 'cached-raises', 'after {}'.format(steps))
            continue
        if not ctx.check(err is None, 'cached-accepts', 'an uncached read raised {}'.format(err)):
            continue
        ctx.count('cached_reads')
        after = {c: os.stat(os.path.join(d, c)).st_mtime_ns for c in cacheFiles(d)}
        if before and before == after:
            ctx.count('cache_hits')
        elif step:
            rereads += 1
        ctx.check(type(C) is cls, 'type', lambda: 'a {} was read'.format(type(C)))
        ctx.eq(snap(C), fresh, 'cached-differs', 'after {} (extension {!r}, name {!r}):'.format(steps, ext, name))
        ctx.check(bool(cacheFiles(d)), 'no-cache', lambda: 'a cached read of {} files left no cache'.format(len(listing)))
        with Opened() as opened:
            again = cls(target, name=name, extension=ext, cached=True)
        reread = [f for f in opened.names if os.path.dirname(os.path.abspath(f)) == os.path.abspath(d) and 'DirCache' not in f]
        ctx.check(not reread, 'reread', lambda: 'nothing had changed, but {} were opened'.format(reread))
        ctx.count('unopened', int(bool(listing)))
        ctx.eq(snap(again), fresh, 'second-cached-differs', 'after {} (extension {!r}, name {!r}):'.format(steps, ext, name))
        # what is done to one collection is not seen by the next cached read
        if what == 'mutate' or rng.random() < 0.2:
            if len(again):
                again.pop()
            again.name = 'spoiled'
            again.errors['x'] = 'y'
            third = cls(target, name=name, extension=ext, cached=True)
            ctx.eq(snap(third), fresh, 'cache-shares-state', 'after changing a cached collection:')
        # a collection from the cache can be used like any other
        if rng.random() < 0.3 and not grants:
            E = mk.RecordCollection(name='x')
            ctx.eq(set(r.id for r in (again | E)), set(r.id for r in again), 'cached-union')
    if len(steps) > 1 and rereads:
        ctx.sig(steps, sorted(os.listdir(d)), clock[0], rng.random())
        ctx.sample({'steps': steps, 'extension': ext, 'grants': grants})


def grantSnap(C):
    recs = {}
    for G in C:
        recs[(type(G).__name__, str(G.id))] = ({k: repr(v) for k, v in G.items()}, G.bad, os.path.basename(G.sourceFile))
    return {'records': recs, 'n': len(C), 'name': C.name, 'bad': C.bad, 'errors': {k: str(v) for k, v in C.errors.items()}}
