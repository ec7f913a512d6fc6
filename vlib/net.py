"""What the checks of the interlocking have in common."""
from vlib import infra, tracks

OPS = ['elements', 'nodes', 'routes', 'irs']


def names(l):
    """how the library numbers its routes and nodes"""
    irs = [[[k + 1 for k in r['srs']], r['from'], r['to']] for r in l['irs']]
    ids = [r['nodes'] for r in l['routes']]
    return {'op': 'names', 'irs': irs, 'ids': ids}, ['ok']


def walk(l, w):
    return [[l.nd(n), o, [] if s is None else [[l.el(s[0]), -1 if s[1] is None else s[1], s[2], -1 if s[3] is None else s[3], s[4]]]]
            for n, o, s in w]


def plans(ctx, n, **kw):
    kw.setdefault('routes', 10)
    kw.setdefault('steps', 4)
    kw.setdefault('stations', 4)
    return tracks.random_plans(ctx, n, **kw)


def quiet_plans(ctx, n):
    """networks without a single interlocking route"""
    import random
    from vlib import plan as vp
    out = []
    for i in range(n):
        rng = random.Random('quiet-%d-%d' % (ctx.seed, i))
        k = rng.randint(1, 3)
        plan = {'stations': [], 'secs': [], 'lines': [], 'version': ['Q', i + 1]}
        nid = iter(rng.sample(range(1, 999), 40))
        for st in range(k):
            a, b = next(nid), next(nid)
            up = rng.random() < 0.5
            m = [{'id': next(nid), 'tag': t, 'km': 2000 + 1000 * j, 'x': {}} for j, t in
                 enumerate(rng.sample(['VorsignalS', 'SchutzsignalF', 'Tunnel', 'FahrzeitmesspunktS'], rng.randint(0, 3)))]
            plan['secs'].append({'line': st + 1, 'st': st, 'nodes': [{'id': a, 'main': a, 'tag': 'Gleisende', 'km': 1000, 'x': {}}] + m +
                                 [{'id': b, 'main': b, 'tag': rng.choice(['Gleisende', 'Prellbock']), 'km': 90000, 'x': {}}]})
            r = {'name': 'R%d' % st, 'start': a if up else b, 'end': b if up else a, 'course': [], 'omit': [], 'spl': [],
                 'attrs': [], 'pass': 0, 'freight': 0, 'rtcp': 0}
            plan['stations'].append({'name': 'Q%d' % st, 'secs': [st], 'routes': [r]})
            plan['lines'].append([st + 1, [[0, 99000000, 1]]])
        out.append(vp.finish(plan))
    return out
