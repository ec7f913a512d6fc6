"""P44: the planned order of trains as the web server shows it. Specification Server.tla."""
from vlib import server

TECHNIQUE = 'TLA+ specification of how an ordering graph is shown; TLC judges the graphs the real server answers with for generated ' \
            'timetables and intervals against the ordering graphs of the library'


def target(infra, t, a, b, trains):
    return '/infrastructure/%s/timetable/%s/ordering?from=%s&to=%s&trainIds=%s' % (infra, t, a, b, ','.join(map(str, trains)))


def check(ctx):
    exe = server.build(ctx)
    scs = server.scenarios(ctx, exe, 280 if ctx.thorough else 60, trains=8)

    def more(sc, books):
        rng = sc['rng']
        c = []
        sc['asked'] = []
        for (nm, t), (trains, usages) in sc['trains'].items():
            c += [{'op': 'use', 'infra': nm}, {'op': 'timetable', 'dir': '%s/tt/%s' % (sc['root'], t)}]
            starts = [d * 86400 + u['got']['dep'] for x, u in zip(trains, usages) if u['ok'] for d in x['days']] or [19000 * 86400]
            qs = []
            for _ in range(5):
                a = rng.choice(starts) + rng.choice([-3600, -60, 0, 1, 300, rng.randint(-40000, 40000)])
                b = a + rng.choice([0, 600, 3600, 20000, 90000, 150000])
                qs.append((a, b, rng.sample(range(len(trains)), rng.randint(1, min(len(trains), 5))) if rng.random() < .3 and trains else []))
            qs.append((0, max(starts) + 86400 * 3, []))
            sc['asked'] += [(nm, t, target(nm, t, *q), 200) for q in qs]
            c.append({'op': 'orders', 'q': [{'all': False, 'from': [a // 86400, a % 86400], 'to': [b // 86400, b % 86400], 'trains': x, 'cut': []}
                                            for a, b, x in qs]})
            wrong = [(target(nm, t, qs[0][1] + 1, qs[0][0], []), 400), (target(nm, t, qs[0][0], qs[0][1], [str(10 ** 20)]), 400),
                     (target(nm, t, '9' * 20, '9' * 20, []), 400), (target(nm + 'x', t, 0, 1, []), 404), (target(nm, t + 'x', 0, 1, [0]), 404),
                     (target(nm, t, '', 1, []), 404), (target(nm, t, 0, 1, [',1']), 400)]
            sc['asked'] += [(nm, t) + w for w in wrong]
            c.append({'op': 'ask', 'q': [q[2] for q in sc['asked'][-len(qs) - len(wrong):]]})
        return c
    evs = []
    shown = []
    for sc, books, got in server.run(ctx, exe, scs, more):
        es, fine = server.start(sc, {} if books is not None else None, got)
        if fine:
            it = iter(sc['asked'])
            graphs = None
            for e in got:
                if e['op'] == 'orders':
                    graphs = e['res'][1]
                if e['op'] == 'ask':
                    for g, a in zip(graphs + [None] * 99, e['res'][1]):
                        nm, t, url, status = next(it)
                        if g is not None and not g['ok']:
                            continue         # whether that may happen is not asked here
                        _, usages = sc['trains'][nm, t]
                        r = server.shown(a)
                        shown.append(len(r['nodes']))
                        g = g['got'] if g else {'nodes': [], 'trips': []}
                        es.append({'op': 'order', 'target': url, 'status': status, 'graph': {'nodes': g['nodes'], 'trips': g['trips']},
                                   'departs': [u['got']['dep'] if u['ok'] else 0 for u in usages], 'got': r, 'res': ['ok']})
        evs += es
    ctx.extra['servers'] = len(scs)
    ctx.extra['nodes shown'] = {'most': max(shown), 'all': sum(shown)}
    ctx.validate('Server', evs, chunk=60)
