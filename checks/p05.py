"""P05: iterating any part of a station route. Specification RouteFacts.tla."""
from vlib import infra, tracks
from vlib import plan as vp

TECHNIQUE = 'TLA+ specification of the state of a route at each of its nodes; TLC judges every iteration the real code ' \
            'makes over all parts of generated routes'


def part(l, w):
    return [[l.nd(n), o, [] if s is None else [[l.el(s[0]), s[1] if s[1] is not None else -1, s[2],
                                                s[3] if s[3] is not None else -1, s[4]]]] for n, o, s in w]


def check(ctx):
    exe = ctx.build('infra.cc', infra.SRC)
    plans = tracks.random_plans(ctx, 500 if ctx.thorough else 90, routes=10, spl=0.25, mids=7)
    ls = infra.load(ctx, exe, plans, ['elements', 'nodes', 'routes'], opts=tracks.BARE)
    cmds, asked = [], []
    for i, l in enumerate(ls):
        if l.crashed:
            continue
        q = []
        for r in l['routes']:
            n = r['size']
            every = [(a, b) for a in range(n) for b in range(a, n + 1)]
            if len(every) > 12:
                # where something changes, and at random
                marks = sorted({0, n} | {x for m in r['omit'] + r['ms'] for x in (m, m + 1)} |
                               {x for s in r['spl'] if s['n'] in r['nodes'] for x in (r['nodes'].index(s['n']), r['nodes'].index(s['n']) + 1)})
                cand = [(a, b) for a in marks for b in marks if a <= b and a < n]
                every = ctx.rng.sample(cand, min(8, len(cand))) + ctx.rng.sample(every, 4)
            q += [[r['id'], a, b] for a, b in every]
        cmds += [{'op': 'new', 'dir': '%s/p%d' % (ctx.work, i), **tracks.BARE}, {'op': 'route_parts', 'q': q}]
        asked.append((l, q))
    evs = [e for e in ctx.run_driver(exe, cmds) if e['op'] != 'new']
    out = []
    for (l, q), ev in zip(asked, evs):
        out.append({'op': 'new', 'plan': vp.tla_plan(l.plan), 'res': ['ok']})
        if ev['res'][0] != 'ok':
            out.append({'op': 'loads', 'res': [ev['res'][0]]})
            continue
        parts = []
        for (r, a, b), (ft, fr, to, it) in zip(q, ev['res'][1]):
            n = l['routes'][r]['size']
            parts += [[r + 1, a, b, part(l, ft)], [r + 1, a, n, part(l, fr)], [r + 1, 0, b, part(l, to)]]
            if a == 0:
                parts.append([r + 1, 0, n, part(l, it)])
        ctx.extra['parts'] = ctx.extra.get('parts', 0) + len(parts)
        for k in range(0, len(parts), 40):
            out.append({'op': 'parts', 'q': parts[k:k + 40], 'res': ['ok']})
    ctx.validate('RouteFacts', infra.events([l for l in ls if l.crashed], lambda l: []) + out, chunk=150)
