"""P03: sections list their elements in driving order. Specification TrackPlan.tla / TrackFacts.tla."""
from vlib import infra, tracks
from vlib import plan as vp

TECHNIQUE = 'TLA+ specification of the order of elements in a section; TLC judges the orders, iterations and slices the ' \
            'real code reports'


def queries(p, rng):
    q = []
    for si, s in enumerate(p['secs']):
        n = len(s['nodes'])
        for _ in range(4):
            q.append([si, rng.random() < 0.5, rng.randrange(n), rng.randrange(n)])
    return q


def facts(l):
    n = len(l.plan['secs'])
    S = l['sections']

    def e(x):
        return [l.el(i) for i in x]
    yield {'op': 'sections'}, ['ok', [{'line': s['line'], 'size': s['size'], 'order': e(s['order']), 'forder': e(s['forder']),
                                       'riseall': e(s['riseall']), 'fallall': e(s['fallall']), 'rise': e(s['rise']),
                                       'fall': e(s['fall']), 'ends': e(s['ends'])} for s in S[:n]]]
    yield {'op': 'border_sections'}, ['ok', [[s['line'], e(s['order']), e(s['forder'])] for s in S[n:]]]


def check(ctx):
    exe = ctx.build('infra.cc', infra.SRC)
    plans = tracks.junctions(ctx) + tracks.random_plans(ctx, 500 if ctx.thorough else 90, mids=8)
    ls = infra.load(ctx, exe, plans, ['elements', 'sections'], opts=tracks.BARE)
    # slices: ask again, now that the elements are known
    cmds, qs = [], []
    for i, l in enumerate(ls):
        if l.crashed:
            continue
        q = []
        for si, s in enumerate(l['sections'][:len(l.plan['secs'])]):
            for rising, order in ((True, s['order']), (False, s['forder'])):
                for _ in range(3):
                    a, b = sorted([ctx.rng.randrange(len(order)), ctx.rng.randrange(len(order))])
                    q.append([si, rising, order[a], order[b]])
        cmds += [{'op': 'new', 'dir': '%s/p%d' % (ctx.work, i), **tracks.BARE}, {'op': 'section_slices', 'q': q}]
        qs.append((l, q))
    evs = [e for e in ctx.run_driver(exe, cmds) if e['op'] != 'new']
    out = []
    for (l, q), ev in zip(qs, evs):
        out.append({'op': 'new', 'plan': vp.tla_plan(l.plan), 'res': ['ok']})
        if ev['res'][0] != 'ok':
            res = [ev['res'][0]]
        else:
            res = ['ok', [[[l.el(i) for i in x] for x in y] for y in ev['res'][1]]]
        out.append({'op': 'slices', 'q': [[a + 1, b, l.el(c), l.el(d)] for a, b, c, d in q], 'res': res})
    ctx.validate('TrackFacts', infra.events(ls, facts) + out, chunk=200)
