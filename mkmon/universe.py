"""Records and grants of every kind, good and bad, as elements for collections."""
from . import gen, grants as gr


def records(rng, ctx, n, kinds=('wos', 'wos', 'med', 'sco', 'pro'), bad=0.15):
    """[(key, Record)]; the key is the ID, or None for a bad record."""
    import metaknowledge as mk
    pools = gen.Pools(rng, authors=5, cites=6, keywords=5)
    used = set()
    out = []
    one = rng.random() < 0.6
    kind = rng.choice(kinds)
    while len(out) < n:
        k = kind if one else rng.choice(kinds)
        if rng.random() < bad:
            i = len(out)
            if k == 'med':
                R = mk.MedlineRecord('PMID- {}\nTI  x no dash {}\n'.format(i, i))
            elif k == 'sco':
                R = mk.ScopusRecord('1,2,{}'.format(i))
            else:
                R = mk.WOSRecord('PT J\nTI number {}\nER\n'.format(i))
            if R.bad and not any(R == r for _, r in out):
                out.append((None, R))
            continue
        if k == 'wos':
            r = gen.wos(rng, pools)
            R = mk.WOSRecord(r.text())
        elif k == 'med':
            r = gen.med(rng, used, hostile=0)
            R = mk.MedlineRecord(r.text())
        elif k == 'sco':
            r = gen.sco(rng, used)
            R = mk.ScopusRecord(r.text())
        else:
            r = gen.pro(rng, used, hostile=0)
            R = [x for x in mk.RecordCollection(ctx.write(ctx.path('u.txt'), gen.proFile([r])))][0]
        if R.bad:
            ctx.fail('universe', 'record {} is bad: {}'.format(r.id, R.error))
            continue
        out.append((r.id, R))
    return out


def grants(rng, ctx, n):
    import os
    import metaknowledge as mk
    out = []
    i = 0
    while len(out) < n:
        i += 1
        name, data, gs = gr.anyFile(rng, i, kind=rng.choice(['nserc', 'nsf', 'csv', 'cihr']))
        p = ctx.write(ctx.path(name), data)
        for G in mk.GrantCollection(p):
            if all(G.id != k for k, _ in out):
                out.append((G.id, G))
        os.remove(p)
    return out
