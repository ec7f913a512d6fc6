"""P20: timetables say what their files say. Specification TrainFacts.tla."""
from vlib import tt

TECHNIQUE = 'TLA+ specification of what a timetable file says of each train and which trains are taken over; TLC judges the ' \
            'trains the real code loads from generated files over generated infrastructures'


def read(l, t):
    yield {'op': 'version', 'same': t['version'] == l.plan['version']}, l.a['timetable']
    a = l['trains']
    keys = ('number', 'break', 'points', 'days', 'trips', 'halts', 'freight', 'ctc', 'length', 'weight', 'speed', 'abs', 'points2')
    got = []
    for x in a['trains']:
        r = {k: x[k] for k in keys}
        r['points'] = [[p[0] + 1] + p[1:] for p in x['points']]
        got.append(r)
    yield {'op': 'read', 'elements': tt.elements(t), 'stock': tt.tla_stock(l.plan['series']), 'got': got, 'span': [a['from'], a['to']]}, ['ok']
    yield {'op': 'numbered', 'n': len(a['trains'])}, [x['id'] for x in a['trains']]


def check(ctx):
    exe = ctx.build('timetable.cc', tt.SRC)
    plans = tt.networks(ctx, 300 if ctx.thorough else 80)
    pairs = tt.with_trains(ctx, exe, plans, ['trains'], lambda rng, l: tt.timetable(rng, l, l.plan['series'], trains=12, spoiled=.2, mismatch=.1, others=.3),
                           opts={'exclusions': False, 'ex_elements': False, 'ex_graph': False})
    evs = tt.events(pairs, read)
    ctx.extra['trains in files'] = sum(len(e['cts']) for l, t in pairs if t for f in t['files'] for e in f)
    ctx.extra['trains loaded'] = sum(len(l['trains']['trains']) for l, t in pairs if t and not l.tt_crash and not l.refused)
    ctx.validate('TrainFacts', evs, chunk=60)
