"""P01: the loaded graph has exactly the driveable connections of the plan.
Specification TrackPlan.tla / TrackFacts.tla."""
from vlib import infra, tracks

TECHNIQUE = 'TLA+ specification of train movements over a track plan; TLC judges graphs loaded by the real code from ' \
            'generated and enumerated plans'


def facts(l):
    yield {'op': 'elements'}, ['ok', [[l.lab[e['id']], (-1 if e['st'] is None else e['st']) + 1, len([n for n in e['nodes'] if n is not None]),
                                       e['t']] for e in l['elements']]]
    yield {'op': 'passages'}, ['ok', infra.passages(l)]


def check(ctx):
    exe = ctx.build('infra.cc', infra.SRC)
    plans = tracks.junctions(ctx) + tracks.random_plans(ctx, 700 if ctx.thorough else 120)
    ls = infra.load(ctx, exe, plans, ['elements', 'nodes'], opts=tracks.BARE)
    ctx.validate('TrackFacts', infra.events(ls, facts), chunk=200)
