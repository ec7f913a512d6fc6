"""P17: breadth and depth first walks. Specification Graphs.tla."""
from vlib import graphs
from vlib.core import flat
from checks.p15 import SRC


def check(ctx):
    exe = ctx.build('graphs.cc', SRC, ['-fsanitize=address,undefined'])
    rng = ctx.rng
    hs = ctx.histories('Graphs', 'UNION {{[op |-> "walk", g |-> g, start |-> 0, deep |-> d, edges |-> e, kind |-> 0, stop_n |-> <<>>, stop_e |-> <<>>] : g \\in AllGraphs(n), d \\in BOOLEAN, e \\in BOOLEAN} : n \\in 1..3}', 1)
    hs += ctx.histories('Graphs', '{[op |-> "walk", g |-> [i \\in 1..4 |-> SetToSortSeq(f[i], <)], start |-> 2, deep |-> d, edges |-> TRUE, kind |-> 0, stop_n |-> <<>>, stop_e |-> <<>>] : f \\in RandomSubset(%d, [1..4 -> SUBSET (0..3)]), d \\in BOOLEAN}' % (8000 if ctx.thorough else 300), 1)
    for _ in range(8000 if ctx.thorough else 1000):
        g = graphs.some(rng, repeat=True)
        n = len(g)
        es = [[a, b] for a in range(n) for b in g[a]]
        c = {'op': 'walk', 'g': g, 'start': rng.randrange(n), 'deep': rng.random() < .5, 'edges': rng.random() < .7, 'kind': rng.randrange(3), 'stop_n': [], 'stop_e': []}
        if rng.random() < .4:
            c['stop_n'] = sorted(rng.sample(range(n), min(n, rng.randrange(1, 3))))
        if rng.random() < .4 and es and c['edges']:
            c['stop_e'] = [list(x) for x in {tuple(rng.choice(es)) for _ in range(rng.randrange(1, 3))}]
        hs.append([c])
    events = ctx.run_driver(exe, flat(hs))
    ctx.validate('Graphs', events, parallel=8)
