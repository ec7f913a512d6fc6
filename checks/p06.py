"""P06: succession of station routes. Specification RouteFacts.tla."""
from vlib import infra, tracks

TECHNIQUE = 'TLA+ specification of when a route continues another; TLC judges the successor and predecessor relations ' \
            'of the real code'


def facts(l):
    g = l['srg']
    yield {'op': 'succ'}, ['ok', [[i + 1, j + 1] for i, s in enumerate(g['succ']) for j in s]]
    yield {'op': 'pred'}, ['ok', [[i + 1, j + 1] for i, s in enumerate(g['pred']) for j in s]]


def check(ctx):
    exe = ctx.build('infra.cc', infra.SRC)
    plans = tracks.random_plans(ctx, 600 if ctx.thorough else 130, routes=14, steps=4)
    ls = infra.load(ctx, exe, plans, ['elements', 'nodes', 'srg'], opts=tracks.BARE)
    evs = infra.events(ls, facts)
    ctx.extra['successions'] = sum(len(e['res'][1]) for e in evs if e['op'] == 'succ')
    ctx.validate('RouteFacts', evs, chunk=150)
