"""Random graphs as plain data and as networkx graphs."""
from . import gen

HARD = ['a,b', 'cr\rin', 'crlf\r\nin', 'say "x"', 'tab\tin', ' lead', 'trail ', "it's", 'Ünï', '漢字', 'x;y', '#h', '=1+1', '\\n', 'two\nlines', '-', '""', ',', '1.0', 'None', 'nan', 'a/b', "b'x'"]


def nodeIds(rng, n, ints=True):
    out = []
    have = set()
    kind = rng.choice(['str', 'str', 'hard', 'int' if ints else 'str', 'mixed' if ints else 'hard'])
    while len(out) < n:
        k = kind if kind != 'mixed' else rng.choice(['str', 'hard', 'int'])
        if k == 'int':
            v = rng.randint(0, 40)
        elif k == 'hard':
            v = rng.choice(HARD) + rng.choice(['', '', str(rng.randint(0, 9))])
        else:
            v = gen.words(rng, 1, 2)
        if str(v) not in have:
            have.add(str(v))
            out.append(v)
    return out


def attrVal(rng):
    return rng.choice([rng.randint(-3, 50), rng.randint(0, 9), round(rng.random() * 10, 3), True, gen.words(rng, 1, 3), rng.choice(HARD), '', '12', [1, 'a'], 'x' * 300])


def graph(rng, n=None, kind=None, attrs=True, weights=0.8, hard=True, loops=True, density=None):
    """(networkx graph) of the asked kind: 'Graph', 'DiGraph', 'MultiGraph', 'MultiDiGraph'"""
    import networkx as nx
    kind = kind or rng.choice(['Graph', 'Graph', 'DiGraph'])
    n = rng.choice([0, 1, 2, 3, 5, 8, 12]) if n is None else n
    g = getattr(nx, kind)()
    ids = nodeIds(rng, n)
    nNames = rng.sample(['count', 'info', 'type', 'MK-ID', 'inCore', 'naïve key', 'a,b'], rng.randint(0, 3)) if attrs else []
    eNames = rng.sample(['weight', 'yearDiff', 'key' if 'Multi' not in kind else 'kind', 'x"y', 'label'], rng.randint(0, 3)) if attrs else []
    same = rng.random() < 0.4
    for i in ids:
        g.add_node(i, **{k: attrVal(rng) for k in nNames if same or rng.random() < 0.7})
    p = rng.choice([0.0, 0.1, 0.3, 0.6]) if density is None else density
    for a in ids:
        for b in ids:
            if (a == b and not (loops and rng.random() < 0.3)) or rng.random() >= p:
                continue
            for _ in range(rng.randint(1, 3) if 'Multi' in kind else 1):
                g.add_edge(a, b, **{k: attrVal(rng) for k in eNames if same or rng.random() < 0.7})
    return g


def large(rng, kind, nodes, edges, nName='count', eName='weight'):
    """A sparse graph of many nodes and edges, each with a number"""
    import networkx as nx
    g = getattr(nx, kind)()
    for i in range(nodes):
        g.add_node('n{}'.format(i), **{nName: rng.randint(0, 9)})
    while edges > 0:
        a, b = rng.randrange(nodes), rng.randrange(nodes)
        edges -= not g.has_edge('n{}'.format(a), 'n{}'.format(b)) or g.is_multigraph()
        g.add_edge('n{}'.format(a), 'n{}'.format(b), **{eName: rng.randint(0, 9)})
    # attributes that one element alone has
    for l in (list(g.nodes(data=True)), list(g.edges(data=True))):
        i = rng.choice([99, 100, 499, 500, 999, 1000, len(l) - 1, rng.randrange(len(l))])
        l[min(i, len(l) - 1)][-1]['rare'] = rng.randint(0, 9)
    return g
