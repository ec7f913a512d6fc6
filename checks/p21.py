"""P21: trains on interlocking routes. Specification TrainFacts.tla."""
from vlib import tt

TECHNIQUE = 'TLA+ specification of how a drive over station routes is expressed in interlocking routes; TLC judges the routes ' \
            'and walks of the trains the real code loads'


def facts(l, t):
    by = tt.by_number(t)
    out = []
    for x, w in zip(l['trains']['trains'], l['train_walks']):
        c = by.get(tuple(x['number']))
        if c is None:
            continue
        out.append({'c': tt.tla_train(c), 't': {'path': [i + 1 for i in x['path']], 'walk': w['walk'], 'start': w['start'],
                                                'firstsr': w['firstsr'] + 1, 'lastsr': w['lastsr'] + 1, 'length': w['length']}})
    yield {'op': 'paths', 'trains': out}, ['ok']


def check(ctx):
    exe = ctx.build('timetable.cc', tt.SRC)
    plans = tt.networks(ctx, 300 if ctx.thorough else 80, etcs=True)
    pairs = tt.with_trains(ctx, exe, plans, ['trains', 'train_walks'], lambda rng, l: tt.timetable(rng, l, l.plan['series'], trains=16, spoiled=0),
                           opts={'exclusions': False, 'ex_elements': False, 'ex_graph': False})
    evs = tt.events(pairs, facts)
    ctx.extra['trains in files'] = sum(len(e['cts']) for l, t in pairs if t for f in t['files'] for e in f)
    ctx.extra['trains loaded'] = sum(len(l['trains']['trains']) for l, t in pairs if t and not l.tt_crash)
    ctx.validate('TrainFacts', evs, chunk=60)
