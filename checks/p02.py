"""P02: steps can be undone by opposing trains; elements agree with the graph.
Specification TrackPlan.tla / TrackFacts.tla."""
from vlib import infra, tracks

TECHNIQUE = 'TLA+ specification of train movements over a track plan; TLC judges the predecessor relation, neighbours, ' \
            'chainages and distances reported by the real code'


def facts(l):
    ns = [[i, l.lab[e], -1 if a is None else a, -1 if b is None else b, rev,
           -1 if back is None else -2 if back == 'exc' else back] for i, e, a, b, rev, back, t in l.nodes]
    yield {'op': 'nodes', 'ns': ns}, ['ok']
    yield {'op': 'adjacency'}, ['ok', [[l.el(a), l.el(b), nb, num(x), num(y), num(d)] for a, b, nb, x, y, d in l['adjacency']]]
    nb = {(l.lab[e['id']], l.el(x)) for e in l['elements'] for x in e['neigh'] if x is not None}
    yield {'op': 'neighbours'}, ['ok', [list(x) for x in sorted(nb)]]
    yield {'op': 'ports'}, ['ok', [[l.lab[e['id']]] + (p[:3] + [True] if e['t'] == 'km_jump' and p[0] == 'b' else p) for e in l['elements'] if e['class'][3]
                                   for p in (e['ports'][:1] if e['t'] == 'border' else e['ports'])]]
    yield {'op': 'directions'}, ['ok', [[l.lab[e['id']], 'S' if e['rising'] and not e['falling'] else 'F' if e['falling'] and not e['rising'] else '?']
                                        for e in l['elements'] if e['class'][4] and e['t'] != 'meta']]
    n = len(l.plan['secs'])
    yield {'op': 'lengths'}, ['ok', [[num(x) for x in y] for y in l['lengths'][:n]]]


def num(x):
    return -1 if x is None else x


def check(ctx):
    exe = ctx.build('infra.cc', infra.SRC)
    plans = tracks.junctions(ctx) + tracks.random_plans(ctx, 500 if ctx.thorough else 90)
    ls = infra.load(ctx, exe, plans, ['elements', 'nodes', 'adjacency', 'lengths'], opts=tracks.BARE)
    ctx.validate('TrackFacts', infra.events(ls, facts), chunk=200)
