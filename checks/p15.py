"""P15: transitive reduction. Specification Graphs.tla."""
from vlib import graphs
from vlib.core import flat

SRC = ['src/simulation/ordering/get_cycle.cc', 'src/simulation/ordering/remove_transitive_edges.cc']


def check(ctx):
    exe = ctx.build('graphs.cc', SRC, ['-fsanitize=address,undefined'])
    rng = ctx.rng
    # all acyclic graphs with up to four nodes, and the laws of the specification on them
    hs = ctx.histories('Graphs', 'UNION {{[op |-> "reduce", g |-> g, twice |-> FALSE] : g \\in {x \\in AllGraphs(n) : ~Cyclic(x)}} : n \\in 1..3}', 1,
                       inv=['Promise'], defs='Promise == \\A i \\in 1..Len(h) : ReductionLaws(h[i].g)')
    dag4 = '{[i \\in 1..4 |-> SetToSortSeq({q[j] : j \\in f[i]}, <)] : f \\in {x \\in [1..4 -> SUBSET (1..4)] : \\A i \\in 1..4 : \\A j \\in x[i] : j > i}, q \\in {<<%s>>}}'
    for q in (['1, 2, 3, 0', '0, 1, 2, 3', '3, 2, 1, 0', '2, 0, 3, 1'] if ctx.thorough else ['0, 1, 2, 3']):
        hs += ctx.histories('Graphs', '{[op |-> "reduce", g |-> g, twice |-> TRUE] : g \\in ' + dag4 % q + '}', 1, inv=['Promise'], defs='Promise == \\A i \\in 1..Len(h) : ReductionLaws(h[i].g)')
    # relabelled
    for h in list(hs[-64:]):
        g = h[0]['g']
        p = list(range(len(g)))
        rng.shuffle(p)
        r = [[] for _ in g]
        for i, o in enumerate(g):
            r[p[i]] = [p[x] for x in o]
            rng.shuffle(r[p[i]])
        hs.append([{'op': 'reduce', 'g': r, 'twice': False}])
    for _ in range(6000 if ctx.thorough else 500):
        hs.append([{'op': 'reduce', 'g': graphs.some(rng, acyclic=True), 'twice': rng.random() < .2}])
    for _ in range(100 if ctx.thorough else 12):
        hs.append([{'op': 'reduce', 'g': graphs.chain(rng, rng.randrange(15, 30)), 'twice': False}])
        hs.append([{'op': 'reduce', 'g': graphs.graph(rng, rng.randrange(12, 20), acyclic=True), 'twice': False}])
    events = ctx.run_driver(exe, flat(hs))
    ctx.validate('Graphs', events, parallel=8)
