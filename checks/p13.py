"""P13: ordering graphs. Specification Ordering.tla."""
from vlib import orders, runs, tt

TECHNIQUE = 'TLA+ specification of the planned order of route usages; TLC judges the ordering graphs the real code builds for ' \
            'generated timetables and intervals'


def check(ctx):
    exe = ctx.build('orders.cc', orders.SRC)
    plans = runs.plans(ctx, 360 if ctx.thorough else 100, stations=4, ms=.4, big=False)
    ls = orders.loaded(ctx, exe, plans, 7, [orders.queries(ctx.rng)], crowd=.3)
    evs = []
    for l, t, _ in ls:
        if l.tt_crash or l.refused:
            if l.tt_crash == 'orders':
                evs += [{'op': 'new', 'groups': [], 'trains': [], 'res': ['ok']}, {'op': 'order', 'ok': False, 'res': ['ok']}]
            continue
        subj = orders.subjects(l)
        if len(subj) < len(l['trains']['trains']):
            continue
        evs.append({'op': 'new', 'groups': l.plan['cliques'], 'trains': subj, 'res': ['ok']})
        for q, r in zip(l.asked, l['orders']):
            evs.append({'op': 'order', 'q': q, 'ok': r['ok'], 'got': r['got'], 'res': ['ok']})
    sizes = sorted(len(e['got']['nodes']) for e in evs if e['op'] == 'order' and e['ok'])
    ctx.extra['nodes'] = {'most': sizes[-1], 'median': sizes[len(sizes) // 2]}
    ctx.extra['graphs'] = sum(1 for e in evs if e['op'] == 'order')
    ctx.validate('Ordering', evs, chunk=80)
