"""What the checks of ordering graphs have in common."""
import copy
import random

from vlib import infra, runs, tt

SRC = runs.SRC + ['src/simulation/ordering/*.cc']


def cover(graph, rng):
    """groups of mutually exclusive routes such that every exclusion lies in one"""
    adj = [set(r) for r in graph]
    left = {}                                # routes -> those of higher numbers still to be covered
    for a, r in enumerate(adj):
        m = {b for b in r if a <= b and a in adj[b]}
        if m:
            left[a] = m
    out = []
    while left:
        a = min(left) if rng.random() < .5 else rng.choice(sorted(left))
        b = min(left[a]) if rng.random() < .5 else rng.choice(sorted(left[a]))
        c = {a, b}
        cand = (adj[a] & adj[b]) - c
        while cand:
            x = rng.choice(sorted(cand))
            c.add(x)
            cand = (cand & adj[x]) - c
        for x in c:
            if x in left:
                left[x] -= c
                if not left[x]:
                    del left[x]
        out.append(sorted(c))
    rng.shuffle(out)
    return out


def shift(c, delta):
    def move(t):
        if not t:
            return t
        s = t[0] * 3600 + t[1] * 60 + t[2] + (86400 if t[4] else 0) + delta
        return [s % 86400 // 3600, s // 60 % 60, s % 60, t[3], s >= 86400]
    for p in c['pts']:
        p['arr'], p['dep'] = move(p['arr']), move(p['dep'])
    return c


def timetable(trains, crowd=0):
    def make(rng, l):
        many = rng.random() < crowd         # most trains several times at once
        rs = [r for r in l['routes']]
        t = tt.timetable(rng, l, l.plan['series'], trains=trains, spoiled=0, longest=rng.choice([3, 6, 9]), start=rng.choice([3000, 30000, 84000]),
                         base=19000)
        n = 100000
        for f in t['files']:
            for e in f:
                for c in list(e['cts']):
                    pull = 0
                    for s, o, v in c['vehicles']:
                        x = next(y for q in l.plan['series'] if (q['nr'], q['company']) == (s, o) for y in q['variants'] if y['variant'] == v)
                        pull += max(p[2] for p in x['curve'])
                    c['weight'] = max(c['weight'], pull // 2)
                    mask = ''.join(rng.choice('0111') for _ in range(rng.randint(1, 4)))
                    if '1' not in mask:
                        mask = '1'
                    c['services'] = [{'from': 19000 + rng.randint(0, 2), 'mask': mask}]
                    if rng.random() < .75:
                        shift(c, rng.choice([rng.randint(0, 3600), rng.randint(0, 300), 60 * rng.randint(0, 9)]))
                    for _ in range(rng.randint(2, 5) if many else rng.random() < .2):       # the same train once more
                        n += 1
                        d = copy.deepcopy(c)
                        d['number'] = [n, 0]
                        if rng.random() < .4:
                            shift(d, rng.randint(0, 60))
                        if rng.random() < .5:
                            d['services'] = [{'from': 19001, 'mask': '11'}]
                        e['cts'].append(d)
        t['types'] = ['ms']
        return t
    return make


def queries(rng, n=6, small=False):
    """graphs to ask for; few trips each, if small"""
    def make(l, t):
        qs = []
        starts = []
        for f in t['files']:
            for e in f:
                for c in e['cts']:
                    x = c['pts'][0]['dep'] or c['pts'][0]['arr'] or [0] * 5
                    for s in c['services']:
                        starts += [(s['from'] - 19000 + i) * 86400 + x[0] * 3600 + x[1] * 60 + x[2] for i, y in enumerate(s['mask']) if y == '1']
        for _ in range(n):
            a = rng.choice(starts or [0]) + rng.choice([-3600, -600, -60, 0, 1, 60, 300, rng.randint(-40000, 40000)])
            b = a + rng.choice([0, 600, 3600, 20000, 90000, 150000])
            qs.append({'all': False, 'from': [19000 + a // 86400, a % 86400], 'to': [19000 + b // 86400, b % 86400],
                       'trains': sorted(rng.sample(range(12), rng.randint(2, 5 if small else 8))) if rng.random() < .3 else [],
                       'cut': [rng.randint(0, 999) for _ in range(4)]})
        qs[0] = {'all': True, 'from': [0, 0], 'to': [0, 0], 'trains': [] if rng.random() < .6 else [0, 1, 2], 'cut': [1, 2, 3]}
        l.asked = qs
        return {'op': 'orders', 'q': qs}
    return make


def loaded(ctx, exe, plans, trains, ops, crowd=0):
    """plans with groups of exclusive routes covering all exclusions, and trains on them"""
    first = infra.load(ctx, exe, plans, ['elements', 'excl'])
    use = []
    for l in first:
        if l.a['new'][0] != 'ok' or l.a['excl'][0] != 'ok':
            continue                         # whether that may happen is not asked here
        l.plan['cliques'] = cover(l['excl']['graph'], random.Random('cover-%d' % len(use)))
        use.append((l.plan, l['excl']['graph']))
    ctx.extra['plans'] = len(use)
    pairs = tt.with_trains(ctx, exe, [p for p, _ in use], ['trains', 'usages'] + ops, timetable(trains, crowd), opts={'ex_graph': False, 'ex_elements': False})
    return [(l, t, g) for (l, t), (p, g) in zip(pairs, use) if t is not None and not l.crashed]


def subjects(l):
    """the trains with their usages of routes"""
    out = []
    for x, u in zip(l['trains']['trains'], l['usages']):
        if u['ok']:
            g = u['got']
            out.append({'id': g['id'], 'path': g['path'], 'days': x['days'], 'dep': g['dep'], 'arr': g['arr'], 'times': g['times']})
    return out
