"""P23: intervals of constant allowed speed. Specification RunFacts.tla."""
import random

from vlib import runs, tt

TECHNIQUE = 'TLA+ specification of the allowed speeds along a drive and of the intervals they cut it into; TLC judges the ' \
            'intervals the real code computes for generated trains on generated infrastructures'


def facts(l, t):
    for op in ('intervals', ):
        xs = []
        for (x, c), g in zip(runs.subjects(l, t), l[op]):
            xs.append({'c': tt.tla_train(c), 'phys': runs.phys(l.plan, c), 'types': t['types'], 'got': g['got'], 'ok': g['ok']})
        yield {'op': op, 'trains': xs}, ['ok']


def check(ctx):
    exe = ctx.build('runs.cc', runs.SRC)
    plans = runs.plans(ctx, 300 if ctx.thorough else 90)

    pairs = tt.with_trains(ctx, exe, plans, ['trains', lambda l, t: {'op': 'intervals', 'types': t['types']}], runs.timetable,
                           opts={'exclusions': False, 'ex_elements': False, 'ex_graph': False})
    evs = runs.events(pairs, facts)
    ctx.extra['trains judged'] = sum(len(e['trains']) for e in evs if e['op'] == 'intervals')
    ctx.extra['intervals judged'] = sum(len(x['got']) for e in evs if e['op'] == 'intervals' for x in e['trains'])
    ctx.validate('RunFacts', evs, chunk=60)
