"""P22: computed running times. Specification RunFacts.tla."""
from vlib import runs, tt

TECHNIQUE = 'TLA+ specification of how a train drives through its intervals and waits at its stops; TLC judges the times the ' \
            'real code computes for generated trains on generated infrastructures'


def facts(l, t):
    xs = []
    for (x, c), iv, g in zip(runs.subjects(l, t), l['intervals'], l['runs']):
        xs.append({'c': tt.tla_train(c), 'phys': runs.phys(l.plan, c), 'types': t['types'], 'iv': iv['got'], 'ivok': iv['ok'],
                   'ok': g['ok'], 'got': [[[l.el(a), b, d] for a, b, d in g['got'][0]], g['got'][1]] if g['ok'] else [[], []]})
    yield {'op': 'runs', 'trains': xs}, ['ok']


def check(ctx):
    exe = ctx.build('runs.cc', runs.SRC)
    plans = runs.plans(ctx, 300 if ctx.thorough else 90)

    pairs = tt.with_trains(ctx, exe, plans, ['trains', lambda l, t: {'op': 'intervals', 'types': t['types']}, lambda l, t: {'op': 'runs', 'types': t['types']}],
                           runs.timetable, opts={'exclusions': False, 'ex_elements': False, 'ex_graph': False})
    evs = runs.events(pairs, facts)
    ctx.extra['trains judged'] = sum(len(e['trains']) for e in evs if e['op'] == 'runs')
    ctx.extra['times judged'] = sum(len(x['got'][0]) for e in evs if e['op'] == 'runs' for x in e['trains'])
    ctx.validate('RunFacts', evs, chunk=60)
