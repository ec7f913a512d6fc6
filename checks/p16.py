"""P16: cycles. Specification Graphs.tla."""
from vlib import graphs
from vlib.core import flat
from checks.p15 import SRC


def check(ctx):
    exe = ctx.build('graphs.cc', SRC, ['-fsanitize=address,undefined'])
    rng = ctx.rng
    hs = ctx.histories('Graphs', 'UNION {{[op |-> o, g |-> g] : g \\in AllGraphs(n), o \\in {"has_cycle", "cycle"}} : n \\in 1..3}', 1)
    n = 4
    hs += ctx.histories('Graphs', '{[op |-> o, g |-> [i \\in 1..4 |-> SetToSortSeq(f[i], <)]] : f \\in RandomSubset(%d, [1..4 -> SUBSET (0..3)]), o \\in {"has_cycle", "cycle"}}' % (8000 if ctx.thorough else 700), 1)
    hs.append([{'op': 'has_cycle', 'g': []}, {'op': 'cycle', 'g': []}])
    for _ in range(5000 if ctx.thorough else 400):
        g = graphs.some(rng, repeat=True)
        hs.append([{'op': 'has_cycle', 'g': g}, {'op': 'cycle', 'g': g}])
    for _ in range(200 if ctx.thorough else 25):
        # one long way round, possibly broken
        k = rng.randrange(10, 25)
        g = graphs.chain(rng, k, rng.choice([0, 0, 1, 1, 2]))
        hs.append([{'op': 'has_cycle', 'g': g}, {'op': 'cycle', 'g': g}])
    events = ctx.run_driver(exe, flat(hs))
    ctx.validate('Graphs', events, parallel=8)
