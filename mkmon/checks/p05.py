"""A directory is the union of its files, with errors filed under the file they came from."""
import os
from mkmon import gen, dirs

ID = 'P05'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 8000, 120000
RULE = ('Random directories of 0-6 Web of Science, Medline, Scopus and ProQuest files, some damaged, some not record files, some sharing records, with sub-directories, read whole and with an '
        'extension; compared with every file read alone. Non-trivial: at least two files contribute records.')
ASSUMPTIONS = ['When two files hold records with the same ID either of them may be the one kept.']
REQUIRED = ['directories', 'files', 'with_extension', 'errors_seen', 'mixed_formats', 'refused', 'shared_ids', 'other_case', 'names', 'names_given']


def case(rng, ctx):
    import metaknowledge as mk
    m = dirs.Maker(rng)
    d = ctx.newdir(rng.choice(['d', 'records', 'with space', 'Ünï']))
    files = {}
    old = None
    for i in range(rng.choice([0, 1, 2, 2, 3, 3, 4, 6])):
        kind, data, recs, damaged = m.file(old=old if rng.random() < 0.2 else None)
        name = rng.choice(['a', 'b b', 'sav', 'x.y', 'é', 'z-1', '.txt', 'd.[].mkRecordDirCache']) + str(i) + rng.choice(dirs.EXT[kind])
        if rng.random() < 0.15:
            ctx.count('other_case')
            name = name[:-3] + name[-3:].upper()
        files[name] = (kind, recs, damaged)
        ctx.write(os.path.join(d, name), data)
        if kind == 'wos' and recs:
            old = [rng.choice(recs)]
    junk = []
    if rng.random() < 0.4:
        name = 'junk' + rng.choice(['.isi', '.txt', '', '.png', '.csv'])
        junk.append(name)
        ctx.write(os.path.join(d, name), rng.choice([b'', b'nothing to see\n', b'\xff\xfe\x00\x01' * 9, b'a,b,c\n1,2,3\n', '\ufeffa,b\n'.encode('utf-8')]))
    if rng.random() < 0.3:
        sub = os.path.join(d, 'sub.isi')
        os.makedirs(sub)
        ctx.write(os.path.join(sub, 'deep.isi'), m.file('wos')[1])
    ext = rng.choice(['', '', '.isi', 'isi', '.txt', '.csv', '.medline', '.none', 'i'])
    target = rng.choice([d, d + os.sep, os.path.join(d, '.'), os.path.relpath(d)])
    chosen = {n: v for n, v in files.items() if n.endswith(ext)}
    chosenJunk = [n for n in junk if n.endswith(ext)]
    ctx.count('directories')
    tree = lambda: sorted(os.path.join(b, f) for b, _, fs in os.walk(d) for f in fs)
    there = tree()
    ctx.count('files', len(chosen))
    if ext:
        ctx.count('with_extension')
    try:
        given = rng.choice(['', '', '', 'mine', 'my records.isi', 'é'])
        if given:
            RC = mk.RecordCollection(target, given, ext)
            ctx.count('names_given')
        else:
            RC = mk.RecordCollection(target, extension=ext)
    except mk.BadInputFile as e:
        ctx.count('refused')
        ctx.eq(tree(), there, 'files-left', 'the files in a directory that was refused')
        ctx.check(bool(chosenJunk) and ext != '', 'refused-readable', lambda: 'directory refused: {} (extension {!r}, {})'.format(e, ext, sorted(os.listdir(d))))
        return
    # without being asked to, nothing is kept in the directory
    ctx.eq(tree(), there, 'files-left', 'the files in a directory that was read')
    ctx.check(not (chosenJunk and ext), 'unknown-not-refused', lambda: 'a file that is not a record file was accepted for extension {!r}: {}'.format(ext, chosenJunk))
    alone = {}
    for n in chosen:
        p = os.path.realpath(os.path.join(d, n))
        if rng.random() < 0.2:
            alone[p] = mk.RecordCollection(p, 'alone')
            ctx.eq(alone[p].name, 'alone', 'name-alone', 'name of a collection from a file')
        else:
            # asked for with any ending its name has, under any path to it
            alone[p] = mk.RecordCollection(rng.choice([p, os.path.join(d, n), os.path.join(target, n)]), extension=rng.choice(['', '', ext, os.path.splitext(n)[1], n]))
            ctx.eq(alone[p].name, os.path.splitext(n)[0], 'name-alone', 'name of a collection from a file')
        ctx.count('names')
    # the IDs come from the description, the values from the files read alone
    want = {}
    nbad = 0
    for n, (kind, recs, damaged) in chosen.items():
        p = os.path.realpath(os.path.join(d, n))
        one = dirs.snapshot(alone[p])
        for r in recs:
            key = [k for k in one['records'] if k[1] == r.id]
            if ctx.check(len(key) == 1, 'file-alone', lambda: '{} has {} records {} when read alone'.format(n, len(key), r.id)):
                want.setdefault(key[0], []).append(one['records'][key[0]])
        for k, v in one['records'].items():
            if k[1] == 'bad':
                want.setdefault(k, []).append(v)
                nbad += 1
        ctx.check(alone[p].bad == damaged or kind == 'sco', 'file-alone-flag', lambda: '{} damaged={} but flagged {}'.format(n, damaged, alone[p].bad))
        if damaged and not nbad:
            ctx.check(alone[p].bad, 'damage-unflagged', lambda: '{} damaged but not flagged'.format(n))
    got = dirs.snapshot(RC)
    ctx.eq(set(got['records']), set(want), 'union', 'records of the directory')
    ctx.eq(got['n'], len(want), 'union-size', 'number of records')
    for k, v in got['records'].items():
        if k in want:
            ctx.check(v in want[k], 'record-differs', lambda: 'record {} is {} in the directory, {} in its file'.format(k, v, want[k]))
            if len(want[k]) > 1:
                ctx.count('shared_ids')
    errs = {p: str(rc.errors[p]) for p, rc in alone.items() if rc.bad}
    ctx.eq(got['errors'], errs, 'errors', 'errors of the directory')
    ctx.eq(bool(RC.bad), bool(errs), 'bad-flag', 'bad flag')
    ctx.count('errors_seen', len(errs))
    ctx.eq(RC.name, given or ('{}-files-from-{}'.format(ext, os.path.realpath(d)) if ext else 'files-from-{}'.format(os.path.realpath(d))), 'name', 'name of a directory\'s collection')
    kinds = {t for t, *_ in got['records']}
    if len(kinds) > 1:
        ctx.count('mixed_formats')
    if len(chosen) > 1:
        ctx.sig(sorted(map(repr, got['records'])))
        ctx.sample({'files': sorted(files), 'extension': ext, 'records': len(RC), 'errors': sorted(map(os.path.basename, errs))})
